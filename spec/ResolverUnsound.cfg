SPECIFICATION Spec
CONSTANTS Pure = {"dict", "list", "str"}
 Mixed = {"ndarray", "proxy"}
 Cats = {"mapping", "sequence", "base", "rejected"}
 Cachable = {"dict", "list", "str", "ndarray"}
INVARIANT Memoryless
