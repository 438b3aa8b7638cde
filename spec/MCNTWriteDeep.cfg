CONSTANTS
  Chars = {0, 9, 10, 13, 32, 34, 37, 39, 46, 60, 62, 65, 92, 94, 97, 117, 126, 127, 233, 8364, 65535, 65536, 128512, 1114111}
  MaxLen = 3
SPECIFICATION Spec
INVARIANTS RoundTrip QuoteIdem
CHECK_DEADLOCK FALSE
