SPECIFICATION Spec
CONSTANT MaxPts = 4
INVARIANTS OnDart Undo Memoryless
CHECK_DEADLOCK FALSE
