"""Proximal gradient solver classes solve their documented problems."""


def models(tier):
    return [{'module': 'SolversPgMC', 'workers': 6, 'timeout': 800, 'cfg':
             'SPECIFICATION Spec\nCONSTANT KMax = %d\nINVARIANTS Accepted '
             'Monotone Optimal\nCHECK_DEADLOCK FALSE\n' %
             (30 if tier == 'quick' else 60)}]


def generators(tier, seed):
    from checks import pgmlib, solvercheck
    return solvercheck.generator(pgmlib.CLS, 600, 6000, tier, seed)


def harness(rec):
    from checks import pgmlib
    pgmlib.harness(rec)
