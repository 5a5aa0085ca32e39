SPECIFICATION Spec
CONSTANTS Clients = {1,2,3}
 Bigs = {3}
 Slots = 2
INVARIANTS Own Settled
PROPERTY Served
CHECK_DEADLOCK FALSE
