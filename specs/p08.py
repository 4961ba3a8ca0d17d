"""P08: the starting set lies inside the bounds."""
from specs import prelim, entry
UNITS = [prelim.unit('P08'), prelim.unit('P08', kind='x')] + entry.run_units('P08')
