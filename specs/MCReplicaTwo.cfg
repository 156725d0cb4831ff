SPECIFICATION Spec
CONSTANTS
  Servers = {"P", "Q"}
  Paths = {"x"}
  MaxLen = 3
  Superseded = TRUE
  Demand = TRUE
  Leftovers = TRUE
  Retried = TRUE
  MaxFails = 2
INVARIANTS TypeOK IsPrefix NeverWrong Settled
CHECK_DEADLOCK FALSE
