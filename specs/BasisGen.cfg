SPECIFICATION GSpec
INVARIANT Emit
