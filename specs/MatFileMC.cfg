SPECIFICATION Spec
INVARIANTS RoundTrip NoPrefix OtherType Together
CHECK_DEADLOCK FALSE
