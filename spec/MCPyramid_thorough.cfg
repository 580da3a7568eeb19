SPECIFICATION MCSpec
CONSTANTS Ops = {a, b}
 MaxLevels = 5
 Interval = 2
 MaxDepth = 2
 MaxElem = 7
INVARIANTS LevelsExact IndexOK ChkOK
CHECK_DEADLOCK FALSE
