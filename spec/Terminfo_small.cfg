SPECIFICATION Spec
CONSTANTS Names = {1, 2} Bools = {0, 1} Nums = {0, 2} Caps = {0, 1, 3} Tables <- T1
INVARIANTS Back Part
CHECK_DEADLOCK FALSE
