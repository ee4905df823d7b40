SPECIFICATION Spec
CONSTANTS MaxLen = 40
INVARIANT Emit
