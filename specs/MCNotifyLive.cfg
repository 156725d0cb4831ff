SPECIFICATION LiveSpec
CONSTANTS
  Keys = {"x", "y"}
  Subs = {"a", "b"}
  Vals = {"v"}
  Subscribed <- MCSubscribed
PROPERTIES EventuallyAll
CHECK_DEADLOCK FALSE
