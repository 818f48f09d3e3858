SPECIFICATION Spec
INVARIANT SearchLegal
INVARIANT MergeLegal
CONSTANT K = 2
CONSTANT Mode = "search"
CONSTANT Coord = {0, 1, 2, 3}
CONSTANT MaxPts = 2
CONSTANT NCams = 3
CONSTANT Parts = {0, 1, 2}
