SPECIFICATION Spec
CONSTANTS
  Slip = "no"
  Fields <- MCFieldsFew
  Firsts <- MCFirsts
  Expos = {5}
INVARIANTS SelfAdjoint SelfAdjointOne ByExchange ByInversion ByReflection ByAll ByMomentum
