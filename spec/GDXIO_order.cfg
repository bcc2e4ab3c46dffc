SPECIFICATION Spec
CONSTANTS
  NData = 4
  NT = 3
  BufSize = 3
  MarkLast = FALSE
  Latched = TRUE
INVARIANTS NeverMistaken Reported
CHECK_DEADLOCK FALSE
