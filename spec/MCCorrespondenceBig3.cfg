SPECIFICATION Spec
INVARIANT EndLegal
INVARIANT AlwaysExclusive
INVARIANT Sensitive
CONSTANT NC = 3
CONSTANT N = 3
CONSTANT Accept <- Acc
CONSTANT Flags = {0, 1}
CONSTANT Samples = 8000
CONSTANT Salts = {0, 1, 2, 3}
