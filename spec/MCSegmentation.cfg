SPECIFICATION Spec
CONSTANTS W = 5
 H = 4
 Vals = {0, 2, 3, 5}
 Discos = {0, 1, 9}
 Thr = 1
INVARIANTS Disjoint Connected Bright1 OrderIndependent NothingMissed Numbered
