SPECIFICATION Spec
CONSTANTS LW = 3
 LH = 2
 Decor = {0, 4}
 MinEdges = 5
 Splits = 0
 Gen = FALSE
INVARIANTS I_Integrity I_Area I_Nesting I_Labels I_Lut
CHECK_DEADLOCK FALSE
