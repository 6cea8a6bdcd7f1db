SPECIFICATION Spec
CONSTANT Prop = "ALL"
INVARIANT Holds
CHECK_DEADLOCK FALSE
