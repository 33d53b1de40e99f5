SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {123, 125, 58, 48, 97, 62, 44, 51}
  MaxNum = 400
INVARIANTS EscapeLaw ConcatLaw FieldLaw LiteralLaw RadixLaw RoundLaw DateLaw
CHECK_DEADLOCK FALSE
