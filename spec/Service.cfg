SPECIFICATION Spec
INVARIANTS AsIfAlone HandlerOnce HeadIsEmpty PhOnce CallsMatch NoLostWakeup
PROPERTIES DroppedIsOver NoInfluence
