SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Alphabet = {123, 125, 58, 48, 97, 62, 44, 51}
  MaxNum = 900
INVARIANTS EscapeLaw ConcatLaw FieldLaw LiteralLaw RadixLaw RoundLaw DateLaw
CHECK_DEADLOCK FALSE
