SPECIFICATION Spec
CONSTANTS Clients = {1,2,3,4,5,6,7,8}
 MaxSlots = 4
 MaxSteps = 18
 Every = 1
INVARIANTS Show Grows Limit
CHECK_DEADLOCK FALSE
