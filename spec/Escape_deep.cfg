SPECIFICATION Spec
CONSTANTS
  Ids <- SmallIds
  ByteArgs <- SmallBytes
  IntArgs <- SmallInts
  MaxOps = 4
  Gen = FALSE
INVARIANT Inverse
INVARIANT Numbers
CHECK_DEADLOCK FALSE
