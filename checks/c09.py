"""Parallel solvers compute the documented (serial) iterations."""


def models(tier):
    return []


def generators(tier, seed):
    import os
    n = int(os.environ.get('VERIF_N') or (300 if tier == 'quick' else 3000))
    k = os.environ.get('VERIF_CLS', 'par,conv,mask').split(',')
    dl = [x for x in k if x != 'par']
    g = []
    if dl:
        g.append({'module': 'DlGen', 'workers': 1, 'cfg':
                  'SPECIFICATION SpecP\nCONSTANT Classes = {"DL"}\n'
                  'CONSTANT Kinds = {%s}\nINVARIANT EmitP\n'
                  'CHECK_DEADLOCK FALSE\n' %
                  ', '.join('"%s"' % x for x in dl),
                  'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                            str(seed * 43 + 5))})
    return g + [] if 'par' not in k else g + [{'module': 'ParGen', 'workers': 1, 'cfg':
             'SPECIFICATION SpecP\nCONSTANT Classes = {"Par"}\n'
             'INVARIANT EmitP\nCHECK_DEADLOCK FALSE\n',
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 37 + 9))}]


def harness(rec):
    import json
    import os
    import warnings
    warnings.simplefilter('ignore')
    import sporco.fft as ft
    from vlib.core import fx, arr
    from checks import parlib, dllib
    ft.pyfftw_planner_effort = 'FFTW_ESTIMATE'
    ft.pyfftw_threads = 1
    with open(os.environ['VERIF_SCN']) as f:
        scn = [x['s'] for x in json.load(f)]
    parlib.harness(rec, [q for q in scn if 'kind' not in q['p']], fx, arr)
    dllib.harness(rec, dllib.run_par, [q for q in scn if 'kind' in q['p']])
