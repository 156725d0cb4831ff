SPECIFICATION Spec
CONSTANTS
  Servers = {"P"}
  Paths = {"x"}
  MaxLen = 4
  Superseded = TRUE
  Demand = TRUE
  Leftovers = FALSE
  Retried = TRUE
  MaxFails = 2
INVARIANTS TypeOK IsPrefix NeverWrong Settled
CHECK_DEADLOCK FALSE
