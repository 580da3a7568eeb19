SPECIFICATION Spec
CONSTANTS LW = 2
 LH = 2
 Decor = {0, 3}
 MinEdges = 0
 Splits = 1
 Gen = TRUE
INVARIANTS I_Integrity I_Area I_Nesting I_Labels I_Lut
CHECK_DEADLOCK FALSE
VIEW GeoView
