SPECIFICATION TSpec
CONSTANT BUG = "none"
CHECK_DEADLOCK FALSE
