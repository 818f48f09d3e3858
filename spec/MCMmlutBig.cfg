SPECIFICATION Spec
CONSTANTS MaxR = 4
 MaxZ = 3
 Vals = {2, 9}
INVARIANTS InTable AtNodes Between OwnCell LastFits NotBoth
PROPERTIES Smooth
CHECK_DEADLOCK FALSE
