"""P04: success is reported only when the optimality tests hold."""
from specs.mainloop import units
from specs import entry
UNITS = units('P04') + entry.run_units('P04')
