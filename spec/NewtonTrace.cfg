CONSTANTS
  Quirks = {}
  Prop = "ALL"
INIT TInit
NEXT TNext
INVARIANT Holds
CHECK_DEADLOCK FALSE
