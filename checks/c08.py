"""Online dictionary learning: projected stochastic gradient steps."""


def models(tier):
    return []


def generators(tier, seed):
    import os
    n = int(os.environ.get('VERIF_N') or (300 if tier == 'quick' else 3000))
    k = os.environ.get('VERIF_CLS', 'conv,mask').split(',')
    return [{'module': 'OnlGen', 'workers': 1, 'cfg':
             'SPECIFICATION SpecP\nCONSTANT Classes = {"DL"}\n'
             'CONSTANT Kinds = {%s}\nINVARIANT EmitP\n'
             'CHECK_DEADLOCK FALSE\n' % ', '.join('"%s"' % x for x in k),
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 47 + 7))}]


def harness(rec):
    from checks import dllib, onllib
    dllib.harness(rec, onllib.run, judge='OnlTrace')
