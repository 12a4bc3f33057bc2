SPECIFICATION Spec
CONSTANTS Files = {f1, f2}
 Size = 3
 MaxVer = 3
 Mode = "replace"
 Early = FALSE
 Crashes = TRUE
INVARIANTS Whole NoDamage
CHECK_DEADLOCK FALSE
