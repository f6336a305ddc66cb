"""Norms, proximal operators and projections (sporco.prox)."""
import json
import os

INV = ('SoftMinimises SoftAccepted SoftUnique ProjFixed ProjL1Fixed '
       'ProjL1NotIdentity ProjIsShrink HardKeepsLarge')


def models(tier):
    return [{'module': 'ProxMC', 'workers': 4, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANT B = %d\nINVARIANTS %s\n'
             'CHECK_DEADLOCK FALSE\n' % (4 if tier == 'quick' else 8, INV)}]


def generators(tier, seed):
    n = 2500 if tier == 'quick' else 20000
    return [{'module': 'ProxGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 17 + 1))}]


def harness(rec):
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    import sporco.prox as pr
    import sporco.linalg as sl
    from sporco.prox._util import ndto2d, ndfrom2d
    from vlib.core import fx, arr
    import sporco.prox._lp as lp
    HNE = getattr(lp, 'have_numexpr', None)

    def run(key, c):
        op = c['op']
        sh = tuple(c['sh'])
        n = int(np.prod(sh))
        re = np.array(c['re'][:n]).reshape(sh)
        im = np.array(c['im'][:n]).reshape(sh)
        cplx = c['cplx'] and op in (
            'norm_l0', 'norm_l1', 'norm_2l2', 'norm_l2', 'norm_l21',
            'prox_l0', 'prox_l1', 'prox_l2', 'proj_l2')
        if c['zero'] == 1:
            re[..., 0] = 0
            im[..., 0] = 0
        elif c['zero'] == 2:
            re[0] = 0
            im[0] = 0
        if not cplx:
            im = np.zeros_like(im)
        f4 = c['dt'] == 'f4'
        dt = (np.complex64 if f4 else np.complex128) if cplx else \
            np.dtype(c['dt'])
        v = ((re + 1j * im) / 2.0 if cplx else re / 2.0).astype(dt)
        if c['lay'] == 'F':
            v = np.asfortranarray(v)
        elif c['lay'] == 'R':
            v = np.ascontiguousarray(v[::-1])[::-1]
        v0 = v.copy()
        # axes
        ax = sorted(set(a % len(sh) for a in c['ax'] if
                        -len(sh) <= a < len(sh)))
        ax = [a for a in c['ax'] if -len(sh) <= a < len(sh)]
        seen, ax2 = set(), []
        for a in ax:
            if a % len(sh) not in seen:
                seen.add(a % len(sh))
                ax2.append(a)
        ax = ax2
        axn = len(ax) == 0
        if op == 'prox_dl1l2' or op == 'nd2d' and not c['tup']:
            ax = ax[:1]
        if op == 'nd2d' and axn:
            axn, ax = False, [-1]
        axarg = None if axn else (ax[0] if len(ax) == 1 and not c['tup']
                                  else tuple(ax))
        if op == 'prox_dl1l2' and not axn:
            axarg = ax[0]
        alpha = c['alpha'] / 4.0
        beta = c['beta'] / 4.0
        al = np.float64(alpha)
        if c['usearr'] and op in ('prox_l1', 'prox_l0'):
            al = (np.array(c['aarr'][:n]) / 4.0).reshape(sh).astype(
                np.dtype(c['dt']))
            if c['tup'] and len(sh) > 1:
                al = al[:1]
        elif c['usearr'] and op in ('prox_l2', 'proj_l2') and not axn:
            ks = tuple(1 if d in [a % len(sh) for a in ax] else s
                       for d, s in enumerate(sh))
            al = (np.array(c['aarr'][:int(np.prod(ks))]) / 4.0).reshape(
                ks).astype(np.dtype(c['dt']))
        al = np.asarray(al)
        alarg = al if al.ndim else float(al)
        rec.trace(key, judge='ProxTrace')
        try:
            d = dict(op=op, re=arr(re), im=arr(im), axn=axn, ax=ax,
                     alpha=arr(al, 1024), beta=fx(beta, 1024),
                     eps=fx(c['eps'] / 4.0, 1024))
            if op in ('norm_nuclear', 'prox_nuclear'):
                m = np.array(c['re'][:c['mr'] * c['mc']]).reshape(
                    c['mr'], c['mc'])
                m = np.clip(m, -4, 4)
                if c['tr']:
                    m = m.T
                v = (m / 2.0).astype(np.dtype(c['dt']))
                v0 = v.copy()
                if op == 'norm_nuclear':
                    d = dict(op=op, V=m, val=fx(pr.norm_nuclear(v), 1024))
                else:
                    X, s = pr.prox_nuclear(v, alpha)
                    d = dict(op=op, V=m, a=fx(alpha, 1024),
                             X=[[fx(q, 1024) for q in r] for r in X],
                             s=[fx(q, 1024) for q in s])
            elif op == 'nd2d':
                flat, rsi = ndto2d(v, axarg)
                d.update(flat=arr(flat, 2), back=arr(ndfrom2d(flat, rsi), 2))
            else:
                if op == 'norm_l0':
                    x = pr.norm_l0(v, axis=axarg, eps=c['eps'] / 4.0)
                elif op in ('norm_l1', 'norm_2l2', 'norm_l2', 'norm_l21'):
                    x = getattr(pr, op)(v, axis=axarg)
                elif op == 'norm_dl1l2':
                    x = pr.norm_dl1l2(v, beta, axis=axarg)
                elif op in ('prox_l0', 'prox_l1'):
                    x = getattr(pr, op)(v, alarg)
                elif op in ('prox_l2', 'proj_l2'):
                    x = getattr(pr, op)(v, alarg, axis=axarg)
                elif op == 'prox_sl1l2':
                    x = pr.prox_sl1l2(v, alpha, beta, axis=axarg)
                elif op == 'prox_dl1l2':
                    x = pr.prox_dl1l2(v, alpha, beta, axis=axarg)
                elif op == 'proj_l2ball':
                    s = (im + np.array(c['aarr'][:n]).reshape(sh)) / 2.0
                    x = sl.proj_l2ball(v + s, s, alpha, axarg) - s
                elif op == 'proj_l1':
                    meth = None if c['meth'] == 'none' else c['meth']
                    if not axn:
                        meth = None if c['meth'] == 'none' else 'sortcumsum'
                    x = pr.proj_l1(v, alpha, axis=axarg, method=meth)
                x = np.asarray(x)
                d.update(xr=arr(np.real(x), 1024), xi=arr(np.imag(x), 1024))
            rec.ev('op', pure=bool(np.array_equal(v, v0)), **d)
        except Exception as e:
            rec.ev('exc', t=op + ': ' + repr(e))

    with open(os.environ['VERIF_SCN']) as f:
        scn = json.load(f)
    for n, sc in enumerate(scn):
        # exercise the implementation with and without the optional numexpr
        if HNE is not None:
            lp.have_numexpr = HNE and n % 2 == 0
        run('%s%d' % (sc['s']['op'], n), sc['s'])
