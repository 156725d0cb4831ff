SPECIFICATION Spec
CONSTANTS
  Servers = {"P"}
  Paths = {"x", "y"}
  MaxLen = 5
  Superseded = TRUE
  Demand = TRUE
  Leftovers = TRUE
  Retried = TRUE
  MaxFails = 2
INVARIANTS TypeOK IsPrefix NeverWrong Settled
CHECK_DEADLOCK FALSE
