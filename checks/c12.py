"""Constraint set of convolutional dictionaries (sporco.cnvrep Pcn etc.)."""
import json
import os

from checks.c11 import models, dsz_of  # noqa: F401


def generators(tier, seed):
    n = 1200 if tier == 'quick' else 9000
    return [{'module': 'ConvRepGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nCONSTANT Mode = "pcn"\nINVARIANT Emit\n'
             'CHECK_DEADLOCK FALSE\n',
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 31 + 5))}]


def harness(rec):
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    import sporco.cnvrep as cr
    from vlib.core import arr

    def run(key, c):
        op = c['op']
        dimN = c['dimN']
        kind = c['kind']
        bl = c['bl']
        chan = True
        if kind == 'single':
            bl = bl[:1]
        if kind != 'chan':
            for b in bl:
                b['cb'] = b['cb'][:1]
                b['cb'][0]['C'] = 1 if c['nochn'] else bl[0]['cb'][0]['C']
            chan = not c['nochn']
        else:
            # all groups must describe the same number of channels
            for b in bl[1:]:
                for q, q0 in zip(b['cb'], bl[0]['cb']):
                    q['C'] = q0['C']
        nC = sum(q['C'] for q in bl[0]['cb'])
        M = sum(b['M'] for b in bl)
        Nv = tuple(c['N'])
        K = c['K']
        sh = Nv + (nC, K, M)
        re = np.resize(np.array(c['v']), sh)
        im = np.resize(np.array(c['im']), sh) * (1 if c['cplx'] else 0)
        if c['zero'] == 1:
            re[..., 0] = 0
            im[..., 0] = 0
        elif c['zero'] == 2:
            re[..., 0, :, :] = 0
            im[..., 0, :, :] = 0
        f4 = c['dt'] == 'f4'
        x = (re + 1j * im).astype('c8' if f4 else 'c16') if c['cplx'] \
            else re.astype(c['dt'])
        if op in ('normalise', 'pcn', 'getpcn'):
            # the result does not depend on the (non-zero) scale of a vector
            x = (x * 2.0**np.resize(c['sc'], M)).astype(x.dtype)
        x0 = x.copy()
        dsz = dsz_of(kind, bl, chan)
        rec.trace(key, judge='ConvRepTrace', shards=2)
        base = dict(dimN=dimN, bl=bl, bdim=dimN + 1 + int(chan), x=arr(re),
                    xi=arr(im), nv=list(Nv))
        try:
            if op == 'size':
                d = cr.DictionarySize(dsz, dimN)
                b = dict(op=op, nflt=int(d.nflt), nchn=int(d.nchn),
                         mxsz=[int(q) for q in d.mxsz], ndim=int(d.ndim))
            elif op == 'bcrop':
                b = dict(op=op, z=arr(np.real(cr.bcrop(x, dsz, dimN))))
            elif op == 'zpad':
                xs = np.ascontiguousarray(np.real(x))
                nv = tuple(n + 1 for n in Nv[:c['dimN']])
                base.update(nv=list(nv))
                b = dict(op=op, z=arr(cr.zpad(xs, nv)))
            elif op == 'zeromean':
                xr = np.real(x).copy()
                b = dict(op=op, z=arr(cr.zeromean(xr, dsz, dimN), 4096))
            elif op == 'normalise':
                y = cr.normalise(x, dimN + c['dimC'])
                b = dict(op=op, nn=dimN + c['dimC'], yr=arr(y.real, 4096),
                         yi=arr(y.imag, 4096))
            else:
                kw = dict(dimN=dimN, dimC=c['dimC'], crp=c['crp'], zm=c['zm'])
                if op == 'pcn':
                    y = cr.Pcn(x, dsz, Nv, **kw)
                else:
                    y = cr.getPcn(dsz, Nv, **kw)(x)
                b = dict(op='pcn', crp=c['crp'], zm=c['zm'], dimC=c['dimC'],
                         yr=arr(y.real, 4096), yi=arr(y.imag, 4096))
            rec.ev('op', name=op, pure=bool(np.array_equal(x, x0)),
                   **dict(base, **b))
        except Exception as e:
            rec.ev('exc', t=op + ': ' + repr(e))

    with open(os.environ['VERIF_SCN']) as f:
        scn = json.load(f)
    for n, sc in enumerate(scn):
        run('%s%d' % (sc['s']['op'], n), sc['s'])
