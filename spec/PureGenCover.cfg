SPECIFICATION SpecCover
CONSTRAINT CoverConstraint
VIEW View
CHECK_DEADLOCK FALSE
