SPECIFICATION Spec
INVARIANTS OneAnswer OwnContext RightType InOrder
PROPERTIES AllServed
