SPECIFICATION Spec
CONSTANTS Alphabet = {46, 65, 66, 97}
  MaxLen = 3
INVARIANTS Total Trans Prefixes
CHECK_DEADLOCK FALSE
