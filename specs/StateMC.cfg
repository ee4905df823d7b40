SPECIFICATION Spec
CONSTANT ARB = 32767
INVARIANTS Trichotomy Transitive EqIsMutual MatchTransitive MatchAntisym NoWildcardIsEquality
  PairOrder ReflectTwice
CHECK_DEADLOCK FALSE
