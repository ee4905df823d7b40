from pairinteraction.stand_in import *  # noqa
from pairinteraction import stand_in as _s

StateOne, StateTwo = _s.StateOne, _s.StateTwo
SystemOne, SystemTwo = type("SystemOne", (_s.SystemOne,), {"real": False}), type("SystemTwo", (_s.SystemTwo,), {"real": False})
