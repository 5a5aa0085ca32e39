SPECIFICATION Spec
CONSTANTS
  MaxPlan = 3
  MaxPage = 12
  Buffer = 4
INVARIANTS Success Failure Stranger Possible Wrote
CHECK_DEADLOCK FALSE
