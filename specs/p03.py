"""P03: evaluation count."""
from specs.evals import *
from specs import mainloop
from specs import entry
UNITS = FUNC_UNITS + AUG_UNITS + mainloop.units("P03") + entry.run_units("P03")
