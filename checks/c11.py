"""Roles of array axes in convolutional problems (sporco.cnvrep indexing)."""
import json
import os

INV = 'SizesPreserved Compatible MaskFits WFits Feasible Idem'


def models(tier):
    return [{'module': 'ConvRepMC', 'workers': 4, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANT B = %d\nINVARIANTS %s\n'
             'CHECK_DEADLOCK FALSE\n' % (1 if tier == 'quick' else 3, INV)}]


def generators(tier, seed):
    n = 1500 if tier == 'quick' else 12000
    return [{'module': 'ConvRepGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nCONSTANT Mode = "layout"\nINVARIANT Emit\n'
             'CHECK_DEADLOCK FALSE\n',
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 29 + 4))}]


def dsz_of(kind, blocks, chan):
    """Dictionary size tuple from a block description: (number of filters,
    [(channels, support), ...]) per group."""
    def leaf(M, C, sup):
        return tuple(sup) + ((C,) if chan else ()) + (M,)
    if kind == 'single':
        return leaf(blocks[0]['M'], blocks[0]['cb'][0]['C'],
                    blocks[0]['cb'][0]['sup'])
    if kind == 'multi':
        return tuple(leaf(b['M'], b['cb'][0]['C'], b['cb'][0]['sup'])
                     for b in blocks)
    return tuple(tuple(leaf(b['M'], q['C'], q['sup']) for q in b['cb'])
                 for b in blocks)


def harness(rec):
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    import sporco.cnvrep as cr
    from sporco.admm import cbpdn
    from sporco.pgm import cbpdn as pcbpdn
    import sporco.fft as ft
    from vlib.core import arr
    ft.pyfftw_planner_effort = 'FFTW_ESTIMATE'
    ft.pyfftw_threads = 1

    def crid(cri):
        return {k: (list(int(q) for q in getattr(cri, k))
                    if isinstance(getattr(cri, k), tuple)
                    else int(getattr(cri, k)))
                for k in ('dimN', 'dimC', 'dimK', 'dimCd', 'C', 'Cd', 'K',
                          'M', 'Nv', 'N', 'axisN', 'axisC', 'axisK', 'axisM',
                          'shpD', 'shpS', 'shpX')}

    def run(key, c):
        op = c['op']
        dimN = c['dimN']
        Nv = tuple(c['N'][:dimN])
        nS = c['nS']
        dCd = c['dCd']
        dk = c['dk']
        if nS != 1:
            # with two axes (none) only the natural value is meaningful
            dk = -1 if dk < 0 else (1 if nS == 2 else 0)
        dke = dk if dk >= 0 else (
            0 if nS == 0 else 1 if nS == 2 else 1 - dCd)
        dimC = nS - dke
        C, K = c['C'], c['K']
        ssh = Nv + ((C,) if dimC == 1 else ()) + ((K,) if dke == 1 else ())
        Cd = (C if dimC == 1 else 1) if dCd else 1
        if dCd and c['Cdm']:
            Cd = c['Cdm']
        dsh = tuple(c['n'][:dimN]) + ((Cd,) if dCd else ()) + (c['M'],)
        S = np.resize(np.array(c['v'], float), ssh)
        D = np.resize(np.array(c['v'][7:], float), dsh)
        S0, D0 = S.copy(), D.copy()
        dkarg = None if dk < 0 else dk
        cdu = op == 'cdu'
        bl = [{'M': c['M'], 'cb': [{'C': Cd, 'sup': c['n'][:dimN]}]}]
        kind = c['kind'] if dCd else ('single' if c['kind'] == 'single'
                                      else 'multi')
        if cdu and kind != 'single':
            bl.append({'M': 2, 'cb': [{'C': Cd, 'sup': [1] * dimN}]})
        if cdu and kind == 'chan' and Cd > 1:
            for b in bl:
                b['cb'] = [{'C': 1, 'sup': b['cb'][0]['sup']},
                           {'C': Cd - 1, 'sup': [2] * dimN}]
        rec.trace(key, judge='ConvRepTrace')
        base = dict(dsh=list(dsh), ssh=list(ssh), dk=dk, dimN=dimN, cdu=cdu,
                    bl=bl, bdim=dimN + dCd + 1)
        try:
            if op in ('csc', 'cdu'):
                try:
                    if cdu:
                        cri = cr.CDU_ConvRepIndexing(
                            dsz_of(kind, bl, dCd), S, dkarg, dimN)
                    else:
                        cri = cr.CSC_ConvRepIndexing(D, S, dkarg, dimN)
                    d = dict(err=False, cri=crid(cri))
                except ValueError:
                    d = dict(err=True, cri={})
                rec.ev('op', op='layout', name=op, pure=True, **dict(base, **d))
                return
            err = Cd > 1 and (C if dimC == 1 else 1) != Cd
            if err:
                return
            cri = cr.CSC_ConvRepIndexing(D, S, dkarg, dimN)
            Cx = (C if dimC == 1 else 1) - Cd + 1
            M = c['M']
            # external weight shape: axes of S (unit channel axis where X has
            # one channel), then filters
            full = Nv + ((Cx,) if dimC == 1 else ()) + \
                ((K,) if dke == 1 else ()) + (M,)
            wk = c['wk']
            wsh = {'full': full, 'nofilt': full[:-1], 'scalar': (1,),
                   'intern': tuple(cri.shpX), 'spat': full}[wk]
            wsh = tuple(1 if o and len(wsh) > 1 else s
                        for s, o in zip(wsh, c['one']))
            msh = ssh if wk in ('full', 'nofilt') else (
                Nv if wk in ('scalar', 'spat') else tuple(cri.shpS))
            if wk == 'nofilt' and nS == 2 and C > 1:
                # one non-spatial axis: a channel axis
                msh = Nv + (C,)
            msh = tuple(1 if o and len(msh) > 1 else s
                        for s, o in zip(msh, c['one']))
            if len(msh) - dimN == 1 and msh[dimN] == 1:
                # a unit axis next to a non-unit one: keep the real size so
                # that its role is determined
                msh = msh[:dimN] + (ssh[dimN],)
            W = np.resize(np.array(c['v'], float), wsh)
            Mk = np.resize(np.array(c['v'][3:], float), msh)
            if op == 'l1w':
                rec.ev('op', op=op, name=op, pure=True, wsh=list(wsh),
                       shp=[int(q) for q in cr.l1Wshape(W, cri)], **base)
            elif op == 'msk':
                rec.ev('op', op=op, name=op, pure=True, wsh=list(msh),
                       shp=[int(q) for q in cr.mskWshape(Mk, cri)], **base)
            elif op == 'cls':
                hasM = c['cls'] in ('ConvBPDNMaskDcpl',) or \
                    c['cls'] == 'pgm' and c['one'][0]
                o = {'L1Weight': W, 'MaxMainIter': 2}
                if c['cls'] == 'ConvBPDN':
                    b = cbpdn.ConvBPDN(D, S, 0.1,
                                       cbpdn.ConvBPDN.Options(o), dimK=dkarg,
                                       dimN=dimN)
                elif c['cls'] == 'ConvBPDNMaskDcpl':
                    b = cbpdn.ConvBPDNMaskDcpl(
                        D, S, 0.1, Mk, cbpdn.ConvBPDNMaskDcpl.Options(o),
                        dimK=dkarg, dimN=dimN)
                elif hasM:
                    o['L1Weight'] = 1.0
                    b = pcbpdn.ConvBPDNMask(
                        D, S, 0.1, Mk, pcbpdn.ConvBPDNMask.Options(o),
                        dimK=dkarg, dimN=dimN)
                else:
                    o['L1Weight'] = 1.0
                    b = pcbpdn.ConvBPDN(D, S, 0.1,
                                        pcbpdn.ConvBPDN.Options(o),
                                        dimK=dkarg, dimN=dimN)
                hasW = c['cls'] in ('ConvBPDN', 'ConvBPDNMaskDcpl')
                X = b.solve()
                rec.ev('op', op=op, name=op,
                       pure=bool(np.array_equal(S, S0)
                                 and np.array_equal(D, D0)),
                       iS=arr(b.S), S=arr(S), iD=arr(b.D), D=arr(D),
                       hasW=hasW, iW=arr(b.wl1) if hasW else 0, W=arr(W),
                       hasM=hasM, iM=arr(b.W) if hasM else 0, Mk=arr(Mk),
                       xsh=list(X.shape), rsh=list(b.getcoef().shape)
                       if hasattr(b, 'getcoef') else list(X.shape), **base)
        except Exception as e:
            rec.ev('exc', t=op + ': ' + repr(e))

    with open(os.environ['VERIF_SCN']) as f:
        scn = json.load(f)
    for n, sc in enumerate(scn):
        run('%s%d' % (sc['s']['op'], n), sc['s'])
