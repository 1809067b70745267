SPECIFICATION Fair
INVARIANTS AsIfAlone
PROPERTIES AllServed
