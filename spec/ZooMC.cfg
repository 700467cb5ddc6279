SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxStores = 4
INVARIANT Unique
PROPERTY StoresOk
