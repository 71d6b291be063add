SPECIFICATION Spec
INVARIANTS RoundTrip Truncated Distinct BytesOnly LebBack
CHECK_DEADLOCK FALSE
CONSTANTS
    Byte = {0, 1, 65, 195, 169}
    Digit = {0, 1, 8, 15}
    MaxLen = 3
