SPECIFICATION Spec
CONSTANTS
 Pixels = {1, 2, 3, 4}
 Faces = {0, 1, 2, 3}
 Values = {0, 3}
 Mins = {0, 1, 2, 3}
INVARIANTS TypeOK Incremental Small Partition
PROPERTY NoRelapse
CHECK_DEADLOCK FALSE
