"""P05: a failing evaluation ends the run cleanly."""
from specs.mainloop import units
from specs import entry
UNITS = units('P05') + entry.run_units('P05')
