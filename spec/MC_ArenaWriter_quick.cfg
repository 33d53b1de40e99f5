SPECIFICATION Spec
CONSTANTS MaxLen = 6
  MaxRoom = 9
INVARIANTS Inside Kept NoError
PROPERTIES Whole Stays
CHECK_DEADLOCK FALSE
