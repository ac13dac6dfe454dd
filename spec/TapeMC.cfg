SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS WordFaithful Word5Faithful TapeFaithful FlipFound Flip5Found
CHECK_DEADLOCK FALSE
