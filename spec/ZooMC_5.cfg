SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxStores = 5
INVARIANT Unique
PROPERTY StoresOk
