SPECIFICATION SpecM
INVARIANT Survives
INVARIANT EditsLocal
INVARIANT DiskLoads
PROPERTY SavedIsMem
CONSTRAINT Small
CHECK_DEADLOCK FALSE
