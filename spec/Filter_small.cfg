SPECIFICATION Spec
CONSTANTS
  Alphabet <- Small
  MaxIn = 5
  Gen = FALSE
INVARIANTS SplitFree Lossless Prompt
CHECK_DEADLOCK FALSE
