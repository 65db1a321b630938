SPECIFICATION MCSpec
CONSTANTS Depth = 2
 Kinds1 = {"neg", "!", "step"}
 Kinds2 = {"+", "*", "<"}
INVARIANTS Lifted Commutes Anti Logic Named
CHECK_DEADLOCK FALSE
