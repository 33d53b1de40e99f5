SPECIFICATION Spec
INVARIANTS RoundTrip UpCase Bracketed Ranges Services
CHECK_DEADLOCK FALSE
CONSTANTS G = {0, 1, 43981} O = {0, 9, 10, 100, 255} W = {0, 1, 8, 16, 31, 32, 33, 48, 64, 65, 127, 128} Ports = {0, 1, 80, 65535}
