SPECIFICATION Spec
CONSTANTS
  Ids <- SmallIds
  ByteArgs <- SmallBytes
  IntArgs <- SmallInts
  MaxOps = 3
  Gen = FALSE
INVARIANT Inverse
INVARIANT Numbers
CHECK_DEADLOCK FALSE
