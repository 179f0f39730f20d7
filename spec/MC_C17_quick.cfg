SPECIFICATION Spec
CONSTANTS MaxT = 6 Keep = 12
INVARIANTS AtStamp Once Monotone NoStampBetween Covered Emit
CHECK_DEADLOCK FALSE
