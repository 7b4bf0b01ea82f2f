SPECIFICATION Spec
CONSTANTS
  W1 = 2
  H1 = 2
  W2 = 2
  H2 = 1
  MaxSub = 2
  MaxOps = 3
  Over = 0
  Gen = TRUE
ACTION_CONSTRAINT Emitted
INVARIANT Within
INVARIANT SameShape
PROPERTY Local
CHECK_DEADLOCK FALSE
