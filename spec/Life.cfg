SPECIFICATION Spec
CONSTANT EAGER = FALSE
CONSTANT BUG = "none"
CONSTANT TASKS = {"unlock", "recovery", "ttl"}
INVARIANT NoAlarm OneExcl AllDone Order
PROPERTY Ends
CHECK_DEADLOCK FALSE
