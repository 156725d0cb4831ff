SPECIFICATION Spec
CONSTANTS
  Keys = {"x", "y", "z"}
  Subs = {"a", "b"}
  Vals = {"v"}
  Subscribed <- MCSubscribed
CONSTRAINT Bound
INVARIANTS ProgressNeverAhead NotBeforeCommit
PROPERTIES InOrder NoSkip
CHECK_DEADLOCK FALSE
