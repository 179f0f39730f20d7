SPECIFICATION Spec
CONSTANTS Ls = {1, 2, 3} Ts = {1, 2, 3, 4} Vs = {1, 2} Qs = {1, 2, 3} Two = TRUE
INVARIANTS Samples Statistics Variance NotSelected Emit
CHECK_DEADLOCK FALSE
