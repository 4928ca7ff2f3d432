SPECIFICATION Spec
CONSTANTS MAXV = 18446744
 T0 = 500000000
  MINST = 10
  MAXST = 10000
INVARIANT Conforms
CHECK_DEADLOCK TRUE
