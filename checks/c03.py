from checks import admmlib
models = admmlib.models


def generators(tier, seed):
    return admmlib.generators(tier, seed, 0)


def harness(rec):
    admmlib.harness(rec, 'Loop')
