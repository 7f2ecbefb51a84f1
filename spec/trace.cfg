SPECIFICATION TraceSpec
CONSTANT TraceFile = "@FILE@"
CHECK_DEADLOCK FALSE
