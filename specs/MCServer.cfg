SPECIFICATION Spec
CONSTANTS
  Files = {"f1", "f2"}
  Contents = {"c1", "c2"}
  Who = {"u1", ""}
  Small = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
