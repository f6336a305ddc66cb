"""Dictionary update solver classes solve their documented problems."""


def classes():
    from checks import solverlib as sl
    return sl.DU


def models(tier):
    from checks import solvercheck
    return solvercheck.model(tier, 'ElasticNet')


def generators(tier, seed):
    from checks import solvercheck
    return solvercheck.generator(classes(), 500, 5000, tier, seed)


def harness(rec):
    from checks import solvercheck
    solvercheck.harness(rec)
