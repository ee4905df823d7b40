SPECIFICATION Spec
INVARIANTS AlwaysNumbered AlwaysProducts NoTwice StepwiseIsAtOnce
