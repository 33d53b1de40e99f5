SPECIFICATION Spec
CONSTANTS MaxLen = 9
  MaxRoom = 14
INVARIANTS Inside Kept NoError
PROPERTIES Whole Stays
CHECK_DEADLOCK FALSE
