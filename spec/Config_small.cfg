SPECIFICATION Spec
CONSTANTS Confs <- Some MaxOps = 5 Gen = FALSE
INVARIANTS Lasting Asked
CHECK_DEADLOCK FALSE
VIEW view
