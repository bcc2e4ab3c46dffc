SPECIFICATION Spec
CONSTANTS
  NData = 4
  NT = 3
  BufSize = 3
  MarkLast = TRUE
  Latched = FALSE
INVARIANTS NeverMistaken Reported
CHECK_DEADLOCK FALSE
