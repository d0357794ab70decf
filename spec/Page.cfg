SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT BUG = "none"
INVARIANT Within
INVARIANT Once
INVARIANT Rising
INVARIANT Plan
