SPECIFICATION Spec
INVARIANTS OwnContext
