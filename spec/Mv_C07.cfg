CONSTANT Prop = "C07"
INIT Init
NEXT Next
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
