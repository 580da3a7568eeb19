SPECIFICATION Spec
CONSTANT N = 5
INVARIANT Inv
PROPERTY Unites
CHECK_DEADLOCK FALSE
