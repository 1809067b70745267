SPECIFICATION Spec
CONSTANTS
  Lits = {"", "a", "b"}
  Texts = {"", "a", "b", "c"}
  MaxSegs = 2
INVARIANTS OverlapIsSound OverlapClosedForm OverlapIsSymmetric SameClassOverlaps MatchIsSpelling CapturesSpell
CHECK_DEADLOCK FALSE
