SPECIFICATION Spec
CONSTANTS
  W1 = 3
  H1 = 2
  W2 = 2
  H2 = 2
  MaxSub = 1
  MaxOps = 3
  Over = 1
  Gen = FALSE
ACTION_CONSTRAINT Emitted
INVARIANT Within
INVARIANT SameShape
PROPERTY Local
CHECK_DEADLOCK FALSE
