SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 90, 49, 95, 58, 61, 124, 60, 62, 32, 64, 46, 45, 96, 39, 172, 105, 102}
  Max = 4
INVARIANTS LayoutFree Spelling Under2 Ends
CHECK_DEADLOCK FALSE
