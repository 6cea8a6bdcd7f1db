SPECIFICATION Spec
CONSTANT Prop = "ALL"
CONSTANT Quirks = {}
INVARIANT Holds
CHECK_DEADLOCK FALSE
