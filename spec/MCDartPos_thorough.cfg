SPECIFICATION Spec
CONSTANT MaxPts = 6
INVARIANTS OnDart Undo Memoryless
CHECK_DEADLOCK FALSE
