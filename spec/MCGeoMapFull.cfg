SPECIFICATION Spec
CONSTANTS LW = 2
 LH = 2
 Decor = {0, 1, 2, 3, 4, 5}
 MinEdges = 0
 Splits = 0
 Gen = FALSE
INVARIANTS I_Integrity I_Area I_Nesting I_Labels I_Lut
CHECK_DEADLOCK FALSE
