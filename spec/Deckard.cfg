SPECIFICATION Spec
INVARIANTS Solo Kept OneLease Paused Ranged Heals
CONSTANT PAGE <- SmallPage
CHECK_DEADLOCK FALSE
