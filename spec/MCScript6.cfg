SPECIFICATION Spec
CONSTANTS Clients = {1,2,3}
 MaxSlots = 2
 MaxSteps = 6
 Every = 101
INVARIANTS Show Grows Limit
CHECK_DEADLOCK FALSE
