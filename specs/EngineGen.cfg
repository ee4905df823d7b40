SPECIFICATION Spec
CONSTANTS
 MaxLen = 7
 N = 3
INVARIANT Emit
