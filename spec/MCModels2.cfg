SPECIFICATION Spec
CONSTANT Two = TRUE
INVARIANT WellTyped
PROPERTIES RefusalsChangeNothing OneRegion Unique
CONSTRAINT MaxModels
VIEW View
CHECK_DEADLOCK FALSE
