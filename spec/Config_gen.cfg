SPECIFICATION Spec
CONSTANTS Confs <- Some MaxOps = 5 Gen = TRUE
INVARIANTS Lasting Asked
CHECK_DEADLOCK FALSE
VIEW view
ACTION_CONSTRAINT Emitted
