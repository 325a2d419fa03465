CONSTANTS Tags = {"Placemark","description","Foo"}
 N = 6
 NObs = 1
 PlanIdx = {}
 MaxPlan = 0
INIT Init
NEXT Next
INVARIANTS TypeOK Ordered Whole Canonical Emit
CHECK_DEADLOCK FALSE
