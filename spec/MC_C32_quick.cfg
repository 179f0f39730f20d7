SPECIFICATION Spec
CONSTANTS MaxLen = 4 Full = 2
INVARIANTS Bounded Sym RatesOK Agree Emit
PROPERTIES OneSided
CHECK_DEADLOCK FALSE
