SPECIFICATION Spec
INVARIANT EndLegal
INVARIANT AlwaysExclusive
INVARIANT Sensitive
CONSTANT NC = 4
CONSTANT N = 2
CONSTANT Accept <- Acc
CONSTANT Flags = {0, 1}
CONSTANT Samples = 1500
CONSTANT Salts = {0, 1}
