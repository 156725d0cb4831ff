SPECIFICATION Spec
CONSTANTS
  Files = {"f1", "f2"}
  Contents = {"c1"}
  Who = {"u1", ""}
  Small = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
