SPECIFICATION SpecSim
CHECK_DEADLOCK FALSE
