SPECIFICATION Spec
CONSTANTS
  Servers = {"P"}
  Paths = {"x", "y"}
  MaxLen = 4
  Superseded = TRUE
  Demand = TRUE
  Leftovers = TRUE
  Retried = TRUE
  MaxFails = 1
INVARIANTS TypeOK IsPrefix NeverWrong Settled
CHECK_DEADLOCK FALSE
