SPECIFICATION Spec
CONSTANTS MaxT = 7 Keep = 20
INVARIANTS AtStamp Once Monotone NoStampBetween Covered Emit
CHECK_DEADLOCK FALSE
