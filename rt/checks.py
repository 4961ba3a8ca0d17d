"""Registry of the run-time contract checks: CHECKS[property](rng, k, info)."""
import units, endtoend
CHECKS = {}
CHECKS.update(units.CHECKS)
CHECKS.update(endtoend.CHECKS)
