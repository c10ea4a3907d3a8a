CONSTANTS N = 6 K = 5 Algo = "clip"
SPECIFICATION Spec
INVARIANTS ClipKeepsTwo ClipConsistent TrimShrinks TrimReached UnitFree
PROPERTY Terminates
