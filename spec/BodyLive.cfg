SPECIFICATION Spec
INVARIANTS NotEarly Whole NoPrefix InOrder NoLostWakeup NoDeadlock
PROPERTIES Resolves
