SPECIFICATION Spec
CONSTANTS W = 5
 H = 5
 Vals = {0, 2, 3}
 Discos = {0, 1}
 Thr = 1
INVARIANTS Disjoint Connected Bright1 OrderIndependent NothingMissed Numbered
