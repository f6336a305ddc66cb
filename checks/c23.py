"""Image restoration ADMM solver classes solve their documented problems."""


def classes():
    from checks import solverlib as sl
    return sl.IMG


def models(tier):
    from checks import solvercheck
    return solvercheck.model(tier, 'BPDN')


def generators(tier, seed):
    from checks import solvercheck
    return solvercheck.generator(classes(), 700, 7000, tier, seed)


def harness(rec):
    from checks import solvercheck
    solvercheck.harness(rec)
