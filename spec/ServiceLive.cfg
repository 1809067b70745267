SPECIFICATION Fair
INVARIANTS AsIfAlone NoLostWakeup
PROPERTIES AllAnswered
