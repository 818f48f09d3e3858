SPECIFICATION Spec
INVARIANT EndLegal
INVARIANT AlwaysExclusive
INVARIANT Sensitive
CONSTANT NC = 3
CONSTANT N = 2
CONSTANT Accept <- Acc
CONSTANT Flags = {0, 1}
CONSTANT Samples = 0
CONSTANT Salts = {0, 1}
