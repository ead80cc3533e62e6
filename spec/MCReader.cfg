SPECIFICATION MSpec
INVARIANTS Shape Within PathSpelled Nesting Starts Whole
PROPERTIES Forward Progress Local Counting
CHECK_DEADLOCK FALSE
