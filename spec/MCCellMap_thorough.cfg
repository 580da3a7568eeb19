SPECIFICATION Spec
CONSTANTS IW = 4
 IH = 2
INVARIANTS Consistent Progress
CHECK_DEADLOCK FALSE
