SPECIFICATION Spec
CONSTANTS MaxLen = 5 Full = 3
INVARIANTS Bounded Sym RatesOK Agree Emit
PROPERTIES OneSided
CHECK_DEADLOCK FALSE
