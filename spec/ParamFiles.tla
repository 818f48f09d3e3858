----------------------------- MODULE ParamFiles -----------------------------
(* Parameter files: which line stands for which field.  Values are strings.    *)
(* A parameter object is a function from field addresses to values; element i  *)
(* of a list field f has the address "f.i".                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Kinds == {"sequence", "track", "volume", "control", "target", "orient", "calibration", "planes", "examine", "version",
          "ori", "addpar"}
At(f, i) == f \o "." \o ToString(i)
List(f, n) == [i \in 1..n |-> At(f, i)]
\* two lists, one element of each in turn
Turns(f, g, n) == [k \in 1..2 * n |-> IF k % 2 = 1 THEN At(f, (k + 1) \div 2) ELSE At(g, k \div 2)]
Unused(n) == [i \in 1..n |-> "-"]

\* the fields in the order of their lines, for n cameras (or planes)
Layout(kind, n) ==
    CASE kind = "sequence" -> List("img_base_name", n) \o << "first", "last" >>
      [] kind = "track" -> << "dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc", "add" >>
      [] kind = "volume" -> << "x_lay.1", "z_min_lay.1", "z_max_lay.1", "x_lay.2", "z_min_lay.2", "z_max_lay.2",
                               "cnx", "cny", "cn", "csumg", "corrmin", "eps0" >>
      [] kind = "control" -> << "num_cams" >> \o Turns("img_base_name", "cal_img_base_name", n)
                             \o << "hp_flag", "all_cam_flag", "tiff_flag", "imx", "imy", "pix_x", "pix_y", "chfield",
                                   "mm.n1", "mm.n2.1", "mm.n3", "mm.d.1" >>
      [] kind = "target" -> List("gvthresh", 4) \o << "discont", "nnmin", "nnmax", "nxmin", "nxmax", "nymin", "nymax",
                                                      "sumg_min", "cr_sz" >>
      [] kind = "orient" -> << "useflag", "ccflag", "xhflag", "yhflag", "k1flag", "k2flag", "k3flag", "p1flag",
                               "p2flag", "scxflag", "sheflag", "interfflag" >>
      [] kind = "calibration" -> << "fixp_name" >> \o Turns("img_name", "img_ori0", n)
                                 \o << "tiff_flag", "pair_flag", "chfield" >>
      [] kind = "planes" -> << "num_planes" >> \o List("filename", n)
      [] kind = "examine" -> << "examine_flag", "combine_flag" >>
      [] kind = "version" -> << "existing_target_flag" >>
      \* orientation files: the rotation matrix is computed from the angles
      [] kind = "ori" -> List("pos", 3) \o List("angles", 3) \o Unused(9) \o List("primary", 3) \o List("glass", 3)
      [] kind = "addpar" -> List("added", 7)
\* fields that are not in the file
Preset(kind) ==
    CASE kind = "track" -> [f \in {"dsumg", "dn", "dnx", "dny"} |-> "0"]
      [] kind = "control" -> [f \in {"mm.nlay"} |-> "1"]
      [] OTHER -> [f \in {} |-> ""]
\* what stands for a file that is missing
HasDefault(kind) == kind \in {"target", "orient"}
Default(kind) ==
    CASE kind = "target" -> [f \in {"discont", "nnmax", "nxmax", "nymax"} |-> "100"]
                            @@ [f \in {"nnmin", "nxmin", "nymin", "cr_sz"} |-> "1"] @@ [f \in {"sumg_min"} |-> "10"]
      [] kind = "orient" -> [f \in ToSet(Layout("orient", 0)) |-> "0"]

Error == [err |-> TRUE, val |-> [f \in {} |-> ""]]
Gives(v) == [err |-> FALSE, val |-> v]
Fields(kind, n) == ToSet(Layout(kind, n)) \ {"-"}
Place(lay, f) == CHOOSE i \in 1..Len(lay) : lay[i] = f
\* reading: a line (or number) per field; lines beyond are ignored
Read(kind, n, lines) ==
    LET lay == TLCEval(Layout(kind, n)) IN
    IF Len(lines) < Len(lay) THEN Error
    ELSE IF kind \in {"ori", "addpar"} /\ Len(lines) # Len(lay) THEN Error
    ELSE Gives([f \in Fields(kind, n) |-> lines[Place(lay, f)]] @@ Preset(kind))
ReadMissing(kind) == IF HasDefault(kind) THEN Gives(Default(kind)) ELSE Error
Write(kind, n, obj) == LET lay == Layout(kind, n) IN [i \in 1..Len(lay) |-> IF lay[i] = "-" THEN "0" ELSE obj[lay[i]]]

\* ------------------------------------------------- dictionaries, comparison
\* converting keeps every field, and two objects are equal if all fields are
Equal(a, b) == a = b
=============================================================================
