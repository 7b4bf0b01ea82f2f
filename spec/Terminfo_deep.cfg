SPECIFICATION Spec
CONSTANTS Names = {1, 2, 5} Bools = {0, 1, 3} Nums = {0, 2} Caps = {0, 1, 2, 3, 4} Tables <- T1
INVARIANTS Back Part
CHECK_DEADLOCK FALSE
