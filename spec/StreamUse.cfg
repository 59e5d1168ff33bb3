SPECIFICATION Spec
INVARIANT ContractHonoured Sane
CHECK_DEADLOCK FALSE
