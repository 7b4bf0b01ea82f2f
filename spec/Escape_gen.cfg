SPECIFICATION Spec
CONSTANTS
  Ids <- GenIds
  ByteArgs <- GenBytes
  IntArgs <- GenInts
  MaxOps = 4
  Gen = TRUE
ACTION_CONSTRAINT Emitted
INVARIANT Inverse
CHECK_DEADLOCK FALSE
