SPECIFICATION Spec
CONSTANTS Clients = {1,2,3}
 Bigs = {1}
 Slots = 1
INVARIANTS Own Settled
PROPERTY Served
CHECK_DEADLOCK FALSE
