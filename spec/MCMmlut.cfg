SPECIFICATION Spec
CONSTANTS MaxR = 3
 MaxZ = 2
 Vals = {0, 5, 9}
INVARIANTS InTable AtNodes Between OwnCell LastFits NotBoth
PROPERTIES Smooth
CHECK_DEADLOCK FALSE
