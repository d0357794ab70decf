SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT BUG = "none"
INVARIANT Bounded
INVARIANT Ready
INVARIANT InOrder
INVARIANT Patient
INVARIANT Plan
