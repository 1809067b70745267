SPECIFICATION Spec
INVARIANTS OnlyErrors PanicsRightly NeverBoth Unchanging AllowIff405 Agree
PROPERTIES Frozen
CHECK_DEADLOCK FALSE
