SPECIFICATION Spec
INVARIANTS VerdictIsRight TableIsRight
