"""Variants of convolutional sparse coding ADMM solver classes solve their documented problems."""


def classes():
    from checks import solverlib as sl
    return sl.CBTV + sl.PD + sl.WRAP


def models(tier):
    from checks import solvercheck
    return solvercheck.model(tier, 'BPDN', 'BPDNJoint', 'ElasticNet',
                             'BPDNProjL1')


def generators(tier, seed):
    from checks import solvercheck
    return solvercheck.generator(classes(), 600, 6000, tier, seed)


def harness(rec):
    from checks import solvercheck
    solvercheck.harness(rec)
