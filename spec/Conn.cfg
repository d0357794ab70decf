SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT BUG = "none"
INVARIANT NoPlaintext
INVARIANT Authenticated
INVARIANT NothingFromOthers
INVARIANT OnlyComplete
INVARIANT Plan
