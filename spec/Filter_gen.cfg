SPECIFICATION Spec
CONSTANTS
  Alphabet <- Small
  MaxIn = 4
  Gen = TRUE
INVARIANTS SplitFree Lossless Prompt
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emitted
