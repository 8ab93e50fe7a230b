SPECIFICATION Spec
CONSTRAINT Mark
INVARIANT TypeOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
