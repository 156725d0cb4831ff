SPECIFICATION Spec
CONSTANTS
  Servers = {"P"}
  Paths = {"x"}
  MaxLen = 4
  Superseded = TRUE
  Demand = FALSE
  Leftovers = TRUE
  Retried = TRUE
  MaxFails = 2
INVARIANTS TypeOK IsPrefix NeverWrong Settled
CHECK_DEADLOCK FALSE
