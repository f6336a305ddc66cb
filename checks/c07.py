"""Dictionary learning alternates documented sparse coding and dictionary
update iterations."""


def models(tier):
    return []


def generators(tier, seed):
    import os
    n = int(os.environ.get('VERIF_N') or (400 if tier == 'quick' else 3000))
    k = os.environ.get('VERIF_CLS', 'conv,mask,bpdn,wbpdn').split(',')
    return [{'module': 'DlGen', 'workers': 1, 'cfg':
             'SPECIFICATION SpecP\nCONSTANT Classes = {"DL"}\n'
             'CONSTANT Kinds = {%s}\nINVARIANT EmitP\n'
             'CHECK_DEADLOCK FALSE\n' % ', '.join('"%s"' % x for x in k),
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 41 + 7))}]


def harness(rec):
    from checks import dllib
    dllib.harness(rec)
