SPECIFICATION Spec
CONSTANTS Strict = FALSE
 People = {1, 2, 3, 4}
 Foreign = {100, 101}
 Sigs = {1}
 Lists = {1, 3, 4, 5}
 Late = FALSE
 MaxOps = 5
 MaxBuilds = 0
VIEW View
INVARIANT SbInv OneVerdict
PROPERTY Final PenaltyStays
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
