SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS WordFaithful Word5Faithful TapeFaithful FlipFound Flip5Found
CHECK_DEADLOCK FALSE
