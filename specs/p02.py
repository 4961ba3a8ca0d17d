from specs.mainloop import units

UNITS = units('P02')
