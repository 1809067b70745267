SPECIFICATION Spec
INVARIANTS AsIfAlone InOrder EndsForAReason WholeBody
PROPERTIES NoInfluence
