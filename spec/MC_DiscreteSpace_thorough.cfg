CONSTANTS Points = {0,1,2,3,4,5} Payloads = {0,1,2}
SPECIFICATION Spec
INVARIANTS Rep Queries Laws
CHECK_DEADLOCK FALSE
