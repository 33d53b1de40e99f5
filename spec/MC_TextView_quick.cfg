SPECIFICATION Spec
CONSTANTS Alphabet = {46, 49, 97}
  MaxLen = 4
INVARIANT InvInside
PROPERTIES Shrinks Pieces PiecesS Progress Trimmed
CHECK_DEADLOCK FALSE
