CONSTANT Atoms <- TraceAtoms
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
