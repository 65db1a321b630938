SPECIFICATION TraceSpec
CONSTANT WithBuiltin = TRUE
INVARIANT NoOrphan
PROPERTIES RefusalsChangeNothing OnlyAddressed ReadBack
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
