SPECIFICATION TraceSpec
PROPERTIES RefusalsChangeNothing OneRegion
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
