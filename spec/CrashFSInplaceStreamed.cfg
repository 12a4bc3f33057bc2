SPECIFICATION Spec
CONSTANTS Files = {f1, f2}
 Size = 3
 MaxVer = 3
 Mode = "inplace"
 Early = FALSE
 Crashes = FALSE
INVARIANTS Whole NoDamage
CHECK_DEADLOCK FALSE
