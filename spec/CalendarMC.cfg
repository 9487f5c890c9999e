SPECIFICATION Spec
INVARIANT Laws
CONSTANTS From = 0
 To = 24836
CHECK_DEADLOCK FALSE
