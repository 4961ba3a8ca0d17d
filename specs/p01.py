"""P01: the returned values belong to the returned point."""
from specs.mainloop import units
from specs import entry
UNITS = units('P01') + entry.run_units("P01")
