SPECIFICATION Spec
CONSTANTS
  Flags <- SomeFlags
  Colors <- FewColors
  Gen = TRUE
ACTION_CONSTRAINT Emitted
INVARIANT Laws
CHECK_DEADLOCK FALSE
