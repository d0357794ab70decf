INIT Init
NEXT Next
CONSTANT Clients = {"1", "2"}
CONSTANT CAP = 2
CONSTANT BATCH = 2
CONSTANT PER = 3
CONSTANT SLOW = 2
CONSTANT EAGER = TRUE
CONSTANT BUG = "none"
INVARIANT Plan
CHECK_DEADLOCK FALSE
