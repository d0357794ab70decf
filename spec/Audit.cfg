SPECIFICATION Spec
CONSTANT Clients = {"1", "2"}
CONSTANT CAP = 2
CONSTANT BATCH = 2
CONSTANT PER = 3
CONSTANT SLOW = 2
CONSTANT EAGER = FALSE
CONSTANT BUG = "none"
INVARIANT NoAlarm Stored AllSent
PROPERTY Ends
CHECK_DEADLOCK FALSE
