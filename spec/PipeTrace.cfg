SPECIFICATION TSpec
CONSTANT Threads = {0,1,2,3,4,5}
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
