SPECIFICATION Spec
INVARIANT Exact
INVARIANT MustIsMay
CONSTANT MaxCand = 2
CONSTANT Grid = {0, 1, 2}
CONSTANT Sizes = {1, 3}
CONSTANT MaxPts = 3
CONSTANT Ends = {0, 1, 2}
