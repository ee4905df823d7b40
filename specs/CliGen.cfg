SPECIFICATION Spec
CONSTANTS MaxLen = 150
INVARIANT Emit
