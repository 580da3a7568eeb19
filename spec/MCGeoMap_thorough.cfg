SPECIFICATION Spec
CONSTANTS LW = 3
 LH = 2
 Decor = {0, 1, 2, 3, 4, 5}
 MinEdges = 0
 Splits = 0
 Gen = TRUE
INVARIANTS I_Integrity I_Area I_Nesting I_Labels I_Lut
CHECK_DEADLOCK FALSE
VIEW GeoView
