SPECIFICATION Spec
INVARIANTS NeverDriven Room ExactResult LightGoesOn RoomIsUsed
PROPERTIES OnlyForward
