SPECIFICATION MCSpec
CONSTANTS Ops = {a, b}
 MaxLevels = 4
 Interval = 2
 MaxDepth = 2
 MaxElem = 5
INVARIANTS LevelsExact IndexOK ChkOK
CHECK_DEADLOCK FALSE
