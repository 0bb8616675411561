INIT CInitAll
NEXT CNext
CHECK_DEADLOCK FALSE
