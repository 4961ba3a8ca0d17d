"""Sidecar contracts.  specs/<pid>.py defines UNITS: the verification units of
one property.  A unit executes one real function (or a lemma over contracts)
symbolically under its precondition and generates obligations."""


class Unit:
    def __init__(self, name, body, target, budget=60, bound=None, assumes=(), max_paths=4000, quick=True, setup=None,
                 prove_timeout=None, feas_timeout=None, par=1):
        self.name, self.body, self.target = name, body, target
        self.budget, self.bound, self.assumes, self.max_paths, self.quick = budget, bound, list(assumes), max_paths, quick
        self.setup, self.par = setup, par
        self.prove_timeout, self.feas_timeout = prove_timeout, feas_timeout


REAL = 'machine floating point treated as real arithmetic (no rounding, no overflow)'
NPSHIM = 'numpy semantics as modelled in pyvc/snp.py (element-wise operations, views, broadcasting, masks, reductions)'
