------------------------------- MODULE MCStart -------------------------------
(* The truncated binary search for the start of a scan over a sorted list of   *)
(* num entries.  first is the first entry that is not below the window; what   *)
(* comparisons have revealed about it is the interval lo..hi.                  *)
(* The scan must start at or before first, and only existing entries are read. *)
EXTENDS Integers
CONSTANTS Sizes, BackStep
VARIABLES num, j0, dj, lo, hi, bad
vars == <<num, j0, dj, lo, hi, bad>>
Init == /\ num \in Sizes
        /\ j0 = num \div 2 /\ dj = num \div 4 /\ lo = 0 /\ hi = num /\ bad = FALSE
Probe == /\ dj > 1
         /\ bad' = (bad \/ j0 < 0 \/ j0 >= num)
         /\ \/ /\ j0 < hi                \* entry j0 lies below the window: first > j0
               /\ lo' = (IF j0 + 1 > lo THEN j0 + 1 ELSE lo) /\ hi' = hi
               /\ j0' = j0 + dj
            \/ /\ j0 >= lo               \* it does not: first <= j0
               /\ hi' = (IF j0 < hi THEN j0 ELSE hi) /\ lo' = lo
               /\ j0' = j0 - dj
         /\ dj' = dj \div 2
         /\ UNCHANGED num
Spec == Init /\ [][Probe]_vars
Start == IF j0 - BackStep < 0 THEN 0 ELSE j0 - BackStep
InvStart == dj <= 1 => Start <= lo /\ Start <= num
InvReads == ~bad
\* all short lists, and those around the powers of two up to the largest frame
Near(k) == (k - 2)..(k + 2)
QuickSizes == (0..600) \cup Near(256) \cup Near(512) \cup Near(1024) \cup Near(2048) \cup Near(4096)
              \cup (8189..8193) \cup (16382..16385) \cup (20478..20480)
BigSizes == (0..5000) \cup QuickSizes \cup Near(3000) \cup Near(6000) \cup Near(12287) \cup Near(12288)
            \cup Near(10000) \cup Near(16383) \cup Near(18431)
=============================================================================
