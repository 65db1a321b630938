SPECIFICATION Spec
CONSTANT Two = FALSE
INVARIANT WellTyped
PROPERTIES RefusalsChangeNothing OneRegion Unique
CONSTRAINT MaxModels
VIEW View
CHECK_DEADLOCK FALSE
