SPECIFICATION Spec
CONSTANTS Clients = {1,2,3}
 MaxSlots = 2
 MaxSteps = 5
 Every = 23
INVARIANTS Show Grows Limit
CHECK_DEADLOCK FALSE
