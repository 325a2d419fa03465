CONSTANTS Tags = {"Folder","name","description","Foo"}
 N = 4
 NObs = 2
 PlanIdx = {1,2,3}
 MaxPlan = 0
INIT Init
NEXT Next
INVARIANTS TypeOK Ordered Whole Canonical Emit
CHECK_DEADLOCK FALSE
