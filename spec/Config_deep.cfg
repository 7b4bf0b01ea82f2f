SPECIFICATION Spec
CONSTANTS Confs <- Some MaxOps = 8 Gen = FALSE
INVARIANTS Lasting Asked
CHECK_DEADLOCK FALSE
VIEW view
