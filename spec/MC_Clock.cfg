SPECIFICATION Spec
CONSTANTS Ps = {1, 2, 3, 45}
 Zs = {0, 12, 1602666000}
 Es = {0, 1, 7, 30}
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
