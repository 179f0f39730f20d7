SPECIFICATION Spec
CONSTANTS K = 40 M = 720 P = 120 Ns = {41, 42, 43, 55, 60, 81, 83, 100, 120, 121, 125, 130, 160, 240, 365} Cases = {"rad", "rg", "rad_online", "rg_online"} Real = TRUE
INVARIANTS OneRowPerStep RightWindow Causal Emit
CHECK_DEADLOCK FALSE
