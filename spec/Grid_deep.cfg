SPECIFICATION Spec
CONSTANTS
  W1 = 2
  H1 = 2
  W2 = 2
  H2 = 1
  MaxSub = 2
  MaxOps = 4
  Over = 1
  Gen = FALSE
ACTION_CONSTRAINT Emitted
INVARIANT Within
INVARIANT SameShape
PROPERTY Local
CHECK_DEADLOCK FALSE
