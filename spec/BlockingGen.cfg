SPECIFICATION GenSpec
INVARIANTS Room
