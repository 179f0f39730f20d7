SPECIFICATION Spec
CONSTANTS K = 40 M = 720 P = 120 Ns = {41, 42, 60, 83, 120, 130} Cases = {"rad", "rg", "rad_online", "rg_online"} Real = TRUE
INVARIANTS OneRowPerStep RightWindow Causal Emit
CHECK_DEADLOCK FALSE
