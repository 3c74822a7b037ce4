"""The number library's solver gives up on wall-clock limits (3 s to find independent sets, 60 s per call) and then draws other random numbers, so that its results depend on the load of the machine.
Here the clock is taken out: generous limits, and a count of the times it gave up all the same, so that a check does not judge those runs for reproducibility."""
import syngular
import syngular.variety
from syngular.ideal import Ideal

GAVE_UP = [0]
syngular.TIMEOUT = 400
_setting = syngular.variety.TemporarySetting
_guess = Ideal.guess_indep_set


def _patient(module, name, value):
    return _setting(module, name, 60 if name == "TIMEOUT" and value == 3 else value)


def _counted(self):
    GAVE_UP[0] += 1
    return _guess(self)


syngular.variety.TemporarySetting = _patient
Ideal.guess_indep_set = _counted


def gave_up():
    return GAVE_UP[0]
