SPECIFICATION Spec
CHECK_DEADLOCK TRUE
INVARIANTS Complete OnceBuilt MapAfterList
PROPERTY Terminates
