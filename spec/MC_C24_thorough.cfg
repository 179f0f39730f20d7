SPECIFICATION Spec
CONSTANTS Vals = {1, 2, 3} Nfs = {1, 2, 3} Ncs = {1, 2, 3} Nds = {0, 1, 2, 3, 4} Keep = 251
INVARIANTS Shape Monotone ScaleFree DryIsDry Emit
CHECK_DEADLOCK FALSE
