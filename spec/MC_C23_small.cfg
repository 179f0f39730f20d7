SPECIFICATION Spec
CONSTANTS K = 4 M = 6 P = 2 Ns = {5, 6, 7, 8, 9} Cases = {"rad", "rad_online"} Real = FALSE
INVARIANTS OneRowPerStep RightWindow Causal Emit
CHECK_DEADLOCK FALSE
