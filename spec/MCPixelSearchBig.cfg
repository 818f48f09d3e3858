SPECIFICATION Spec
INVARIANT SearchLegal
INVARIANT MergeLegal
CONSTANT K = 2
CONSTANT Mode = "search"
CONSTANT Coord = {1, 2, 3}
CONSTANT MaxPts = 3
CONSTANT NCams = 3
CONSTANT Parts = {0, 1, 2}
