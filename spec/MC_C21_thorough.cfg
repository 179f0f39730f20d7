SPECIFICATION Spec
CONSTANTS Ls = {1, 2, 3} Ts = {1, 2, 3, 4, 5, 6, 7} Cs = {1, 2} Ws = {1, 2, 3, 4, 5, 6} Bs = {1, 2, 3, 5} Keep = 1
INVARIANTS Correct Targets LinkLocal Emit
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
