SPECIFICATION MSpec
INVARIANTS Shape Within PathSpelled Nesting Starts Whole
PROPERTIES Forward Progress Local Counting Ends
CHECK_DEADLOCK FALSE
