SPECIFICATION TSpec
INVARIANTS NeverDriven Room ExactResult
