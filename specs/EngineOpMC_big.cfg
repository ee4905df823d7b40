SPECIFICATION Spec
CONSTANTS
  Slip = "no"
  Fields <- MCFields
  Firsts <- MCFirsts
  Expos = {0, 3, 5}
INVARIANTS SelfAdjoint SelfAdjointOne ByExchange ByInversion ByReflection ByAll ByMomentum
