CONSTANT Atoms <- ModelAtoms
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS OneStructure Durable Bounded EmptyOutside
PROPERTIES PlainResults Reported Deferred NoSilentOverwrite ConflictsAreReported OnlyConflictsAreReported ReadsDoNotWrite CapacityRestored
