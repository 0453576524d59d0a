CONSTANTS N = 4  T = {0, 1, 3}  D = {0, 1, 2}  HP = {1, 3, 4, 9}
INIT Init
NEXT Next
INVARIANTS Killed Early Reaches
CHECK_DEADLOCK FALSE
