"""The function evaluated on the grid (module level, so that it can be sent to
worker processes) and the projection of the results of a grid search."""
import time
import numpy as np

CUR = {}
NAN = 2147483646


def setup(c):
    import itertools
    CUR.clear()
    CUR['c'] = c
    CUR['idx'] = {q: i for i, q in enumerate(itertools.product(
        *[tuple(a) for a in c['axes']]))}


def fn(prm):
    c = CUR['c']
    p = CUR['idx'][tuple(int(round(4 * float(x))) for x in prm)]
    if c['slow']:
        time.sleep(0.002 * c['delay'][p])
    row = [float('nan') if v == NAN else v / 4.0 for v in c['tab'][p]]
    nan = any(v == NAN for r in c['tab'] for v in r)
    cv = {'float': float, 'np': np.float64, 'f4': np.float32,
          'int': (float if nan else lambda v: int(4 * v))}[c['rt']]
    row = [cv(v) for v in row]
    if c['scalar']:
        return row[0]
    return {'tuple': tuple, 'list': list, 'array': np.array}[c['seq']](row)


def scale(c):
    nan = any(v == NAN for r in c['tab'] for v in r)
    return 1 if (c['rt'] == 'int' and not nan) else 4


def grid(c):
    ax = [[v / 4.0 for v in a] for a in c['axes']]
    if c['ad'] == 'list':
        return tuple(ax)
    return tuple(np.array(a, dtype=c['ad']) for a in ax)


def project(c, g, res):
    from vlib.core import arr
    sprm, sfvl, fvmx, sidx = res
    s = scale(c)
    return dict(fvmx=arr(fvmx, s), sprm=arr(sprm, 4), sfvl=arr(sfvl, s),
                sidx=[arr(i) for i in sidx],
                pure=all(np.array_equal(a, b) for a, b in zip(g, grid(c))))
