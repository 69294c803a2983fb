SPECIFICATION Spec
CONSTANTS
  Alphabet = {60, 62, 47, 108, 116, 32, 61, 34, 39, 38, 59, 35, 120, 57, 13}
  MaxLen = 16
  MaxDepth = 2
  MaxRef = 4
  Emit = TRUE
  Abstract = TRUE
VIEW AbsView
INVARIANT InvType
  InvNested InvText InvRoot InvComplete InvSplit
CHECK_DEADLOCK FALSE
