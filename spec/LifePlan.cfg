INIT Init
NEXT Next
CONSTANT EAGER = TRUE
CONSTANT BUG = "none"
CONSTANT TASKS = {"unlock", "timeout", "metrics", "recovery", "max", "ttl"}
INVARIANT NoAlarm Plan
CHECK_DEADLOCK FALSE
