SPECIFICATION HSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
