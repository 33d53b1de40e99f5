SPECIFICATION Spec
INVARIANTS Rep Queries QueriesX
PROPERTY Isolation
CHECK_DEADLOCK FALSE
CONSTANTS P4 = {0,1,2} P6 = {0,1,2} Payloads = {0,1}
