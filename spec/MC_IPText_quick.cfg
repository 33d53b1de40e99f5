SPECIFICATION Spec
INVARIANTS RoundTrip UpCase Bracketed Ranges Services
CHECK_DEADLOCK FALSE
CONSTANTS G = {0, 43981} O = {0, 10, 255} W = {0, 8, 31, 32, 64, 127, 128} Ports = {0, 80, 65535}
