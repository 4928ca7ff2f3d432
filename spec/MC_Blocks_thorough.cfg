SPECIFICATION Spec
CONSTANTS MAXV = 18446744
 T0 = 500000000
  MINST = 10
  MAXST = 10000
 Depth = 2
 Eras = {18, 20, 21}
 Main = 1
VIEW View
INVARIANT Inv
PROPERTY Fresh
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
