SPECIFICATION Spec
CONSTANTS
  Profiles <- OneProfile
  MaxOps = 5
  MaxTxt = 1
  Gen = FALSE
VIEW view
INVARIANT Edited
INVARIANT Text
INVARIANT Files
INVARIANT OneFlag
INVARIANT ByKey
INVARIANT ByClick
INVARIANT Runs
INVARIANT Inert
INVARIANT Made
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
