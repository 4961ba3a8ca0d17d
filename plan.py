"""Per property: how many run-time cases per tier, the level claimed and what it rests on."""
RU = 'case k draws its inputs from a generator seeded with (property, VERIF_SEED, k); '
E2E = RU + 'a random constrained problem (1-4 variables, equality and inequality constraints, bounds, options), a complete optimizer run, the recorded calls compared with the report.'
PLAN = {}


TECH = 'contracts on the real code: deductive units (symbolic execution of the current source, z3/cvc5) plus bounded run-time contract search'
BOUNDED = 'contracts on the real code checked at run time on generated inputs (bounded stand-in; no deductive unit yet)'


def p(pid, quick, thorough, rule, level='exploration', note=None):
    import os
    has = os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs', pid.lower() + '.py'))
    PLAN[pid] = dict(quick=quick, thorough=thorough, rule=rule, level=level, assumptions=[], technique=TECH if has else BOUNDED,
                     note=note or 'Bounded: the property is evaluated on complete runs of the real code for the stated number of generated cases.')


UNB = 'Proved on the current source for all dimensions and inputs under the stated precondition, by contract, over real arithmetic: '
RTN = ' The same statement is also searched at run time (bounded), which covers rounding.'
MAIN = ('The main loop (sqpdfo_main_) is verified against its loop invariants and callee contracts for every dimension, history and outcome of the user functions; '
        'assumed: the contracts listed in the evidence (linear algebra, frames of model building and multipliers, the state sqpdfo_prelim_ hands over, values below the 1e25 cap, no fixed variables). '
        'Quick runs the unconstrained case, thorough all cases (equalities, slacks, array forms, model degrees). Rounding and what the assumptions hide is searched at run time (bounded).')
p('P01', (640, 60), (12000, 500), E2E, level='proof', note=MAIN)
p('P02', (480, 60), (12000, 500), E2E, level='proof', note=MAIN)
p('P03', (640, 60), (12000, 500), E2E, level='proof', note=MAIN + ' The evaluation chain (func, evalfgh, augmX_evalf) is proved too.')
p('P04', (640, 60), (12000, 500), E2E, level='proof', note=MAIN)
p('P05', (960, 60), (16000, 500), E2E + ' A failure is injected at a drawn call index.', level='proof', note=MAIN)
p('P06', (320, 60), (8000, 500), E2E + ' The same call is repeated after other runs.', note='Proved on the current source: the entry point sets every piece of module-level state a run reads from its own arguments, whatever an earlier run left, writes no other global, and neither it nor the initialisation modifies the start, the bounds or the options object of the caller. That two whole runs return the same bits is a statement about pairs of runs and is searched at run time (bounded).')
p('P07', (1600, 60), (40000, 500), RU + 'a valid call made invalid in one drawn respect, or an option keyword set.', note='Proved for every value and combination of options: the option routine refuses exactly the invalid ones and gives every option its documented value (statement by statement, from an arbitrary state). Proved too: missing functions or start are refused before anything is called, and crossed bounds are refused with flag 2 before any evaluation. All classes of invalid calls are also searched on complete runs (bounded).')
p('P08', (640, 60), (12000, 500), E2E, note='Proved on the current source for every dimension, box with lower < upper (finite or infinite bounds), start and radius: every point of the starting set lies inside the bounds, also after the radius was reduced, and the entry point hands the given bounds on. Trial points and the returned point are searched on complete runs (bounded).')
p('P09', (640, 60), (12000, 500), E2E, level='proof', note=MAIN)
p('P10', (8000, 60), (200000, 500), RU + 'dimension 1-7, any number of basis terms, scaling, points and coefficients.', level='proof', note=UNB + 'evalZ, evalP, gradP, hessP against the documented basis and its derivatives.' + RTN)
p('P11', (6000, 60), (100000, 500), RU + 'poised sets of every size, right-hand sides, model types, shifting.', level='proof', note=UNB + 'build_QR, computeP, computeLj, evalL for every set size and model kind; linear-algebra facts (QR, solves, inverses) are axioms of the abstraction in pyvc/lin.py; poisedness is the precondition.' + RTN)
p('P12', (12000, 60), (300000, 500), RU + 'sets, positions, criteria, thresholds of the four set updates.', level='proof', note=UNB + 'swap, replace, augment and include, every column and value stated.' + RTN)
p('P13', (1600, 60), (40000, 500), RU + 'sets with far, clustered and duplicate points; radii and thresholds.', level='proof', note=UNB + 'repair, the neighbour search and the poisedness measure; sub-solver contracts proved in P14 or assumed (bounded solver).' + RTN)
p('P14', (12000, 60), (300000, 500), RU + 'definite, indefinite, singular and hard-case Hessians, zero and tiny gradients.', level='proof', note=UNB + 'solve_TR_MS over an abstract linear algebra; the sign of the value in the hard case is bounded only.' + RTN)
p('P15', (8000, 60), (200000, 500), RU + 'boxes containing the origin (also degenerate), Hessians and gradients.')
p('P16', (12000, 60), (300000, 500), RU + 'symmetric matrices (definite, indefinite, singular), right-hand sides, radii.', level='proof', note=UNB + 'truncated conjugate gradients with a loop invariant over an abstract linear algebra.' + RTN)
p('P17', (12000, 60), (300000, 500), RU + 'points inside boxes with finite and infinite bounds.', level='proof', note=UNB + 'projgrad, finite and infinite bounds.' + RTN)
p('P18', (12000, 60), (300000, 500), RU + 'positive definite matrices, steps (also null), gradient differences, first or later update.', level='proof', note=UNB + 'bfgs_update over an abstract linear algebra.' + RTN)
p('P19', (12000, 60), (300000, 500), RU + 'symmetric matrices with drawn spectra.', level='proof', note=UNB + 'check_convex and check_cond; the floor after the final symmetrisation is bounded only.' + RTN)
p('P20', (4000, 60), (100000, 500), RU + 'matrices, right-hand sides, bounds; optimizer states with drawn active sets.', note='Proved on the current source for every dimension and active set: the box of signs handed to the least squares solver (zero for missing bounds, sign by active bound, nothing for slacks, free for constraints). The solver and the expansion of its result are searched at run time (bounded).')
p('P21', (8000, 60), (200000, 500), RU + 'sets, bounds, constraint values and penalties.', level='proof', note=UNB + 'find_smallf: selection, minimality, swap and frame.' + RTN)
