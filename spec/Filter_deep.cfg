SPECIFICATION Spec
CONSTANTS
  Alphabet <- Deeper
  MaxIn = 6
  Gen = FALSE
INVARIANTS SplitFree Lossless Prompt
CHECK_DEADLOCK FALSE
