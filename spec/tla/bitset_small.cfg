INIT q_init
NEXT q_step
INVARIANT q_inv
CHECK_DEADLOCK FALSE
