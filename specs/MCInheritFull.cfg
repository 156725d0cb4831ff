SPECIFICATION Spec
CONSTANTS
  Stages = {"a", "b", "c"}
  Mirror = "m"
  Missing = "z"
  Few = {"a", "b", "c"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
