"""P06: the caller's data are left alone; module-level state is set anew."""
from specs import prelim, entry
UNITS = [prelim.unit('P06')] + entry.run_units('P06')
