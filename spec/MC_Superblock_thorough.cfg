SPECIFICATION Spec
CONSTANTS Strict = FALSE
 People = {1, 2}
 Foreign = {100}
 Sigs = {1, 2}
 Lists = {2}
 Late = TRUE
 MaxOps = 5
 MaxBuilds = 2
VIEW View
INVARIANT SbInv OneVerdict
PROPERTY Final PenaltyStays
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
