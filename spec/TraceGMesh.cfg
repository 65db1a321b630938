SPECIFICATION TraceSpec
INVARIANT DeviceSound
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
