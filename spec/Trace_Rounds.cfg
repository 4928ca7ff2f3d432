SPECIFICATION Spec
CONSTANTS MAXV = 2000000000
 T0 = 500000000
 MINST = 10000
 MAXST = 10000000
 Lenient = TRUE
INVARIANT Conforms
CHECK_DEADLOCK TRUE
