"""Runs of the parallel (grouped) convolutional sparse coding solver."""
import numpy as np
from checks import solverlib as sl


def make(c, p, fx, arr):
    d = dict(c, cls='ConvBPDNMaskDcpl', norho=False)
    it = sl.make(d, fx, arr)
    M = it.xsh[-1]
    it.ng = min(p['ng'], M)
    cfg = it.cfg
    cfg.update(cls='ParConvBPDN', ng=it.ng, pa=p['pa'], y0=False,
               al=p['xal'])
    o = {k: it.o[k] for k in ('L1Weight', 'NonNegCoef', 'NoBndryCross',
                              'HighMemSolve') if k in it.o}
    o['AuxVarObj'] = True
    o.update(MaxMainIter=1, rho=c['rho'] / 256.0, RelaxParam=p['xal'] / 4.0,
             RelStopTol=0.0, AbsStopTol=0.0, alpha=float(p['pa']))
    if p['pa'] == 1 and p['noW']:
        del o['alpha']
    it.args = [it.args[0], it.args[1], p['pa'] * c['lm'] / 16.0]
    it.o = o
    it.dt = np.dtype('f4' if c['f4'] else 'f8')
    return it


def observe(par, it, s):
    """Auxiliary variables and multipliers in the order of the problem."""
    pa = it.cfg['pa']
    y = np.concatenate([np.asarray(par.mp_Y0).ravel(), pa * np.moveaxis(
        np.asarray(par.mp_Y1), 0, -1).ravel()])
    u = np.concatenate([np.asarray(par.mp_U0).ravel(), np.moveaxis(
        np.asarray(par.mp_U1), 0, -1).ravel()])
    return y, u


def harness(rec, scn, fx, arr):
    from sporco.admm import parcbpdn as par

    def vec(a):
        return sl.vec(fx, a)

    def stats(s, j):
        r = s.getitstat()
        return {f: fx(getattr(r, f)[j], 1024) for f in
                ('ObjFun', 'DFid', 'RegL1')}

    def run(key, c, p, started):
        it = make(c, p, fx, arr)
        cfg = it.cfg
        n = p['niter']
        o = dict(it.o)
        y0 = u0 = None
        if c['hy0']:
            s = par.ParConvBPDN(*it.args, opt=par.ParConvBPDN.Options(o),
                                nproc=1, ngrp=it.ng, **it.kw)
            cri = s.cri
            sh0 = tuple(cri.Nv) + (cri.C, cri.K, it.ng)
            sh1 = tuple(cri.shpX)
            v = {'Y0': sl.take(c['y0'], sh0, it.dt),
                 'Y1': sl.take(c['y0'][11:], sh1, it.dt),
                 'U0': sl.take(c['u0'], sh0, it.dt) / 2,
                 'U1': sl.take(c['u0'][7:], sh1, it.dt) / 2}
            o.update(v)
            y0 = np.concatenate([np.moveaxis(v['Y0'], -1, 0).ravel(),
                                 cfg['pa'] * v['Y1'].ravel()])
            u0 = np.concatenate([np.moveaxis(v['U0'], -1, 0).ravel(),
                                 v['U1'].ravel()])
            cfg['y0'] = True

        def build(nit, nproc, ex=None):
            q = dict(o, MaxMainIter=nit)
            q.update(ex or {})
            q = {k: (v.copy() if isinstance(v, np.ndarray) else v)
                 for k, v in q.items()}
            return par.ParConvBPDN(*it.args, opt=par.ParConvBPDN.Options(q),
                                   nproc=nproc, ngrp=it.ng, **it.kw)
        rec.trace(key, judge='ParTrace', shards=4, cfg=cfg)
        started.append(key)
        s = build(1, 1)
        y, u = observe(par, it, s)
        rec.ev('start', Y=vec(y), U=vec(u), Y0=[] if y0 is None else vec(y0),
               U0=[] if u0 is None else vec(u0))
        for k in range(n):
            x = s.solve()
            y, u = observe(par, it, s)
            rec.ev('iter', X=vec(np.moveaxis(np.asarray(par.mp_Xnr), 0, -1)),
                   Y=vec(y), U=vec(u), rho=fx(s.rho, 256), st=stats(s, k),
                   r=fx(s.getitstat().PrimalRsdl[k], 4096))
            rec.ev('ret', v=vec(x), sh=list(np.shape(x)), xsh=list(it.xsh))
            if k == 0 or k == n - 1:
                r = s.reconstruct()
                rec.ev('recon', given=False, x=[], v=vec(r))
                X = sl.take(c['x'], it.xsh, it.dt)
                r = s.reconstruct(X)
                rec.ev('recon', given=True, x=vec(X), v=vec(r))

        def other(how, s, x, xnit):
            y, u = observe(par, it, s)
            rec.ev('other', how=how, Y=vec(y), U=vec(u),
                   st=stats(s, len(s.itstat) - 1), nit=int(s.k), xnit=xnit)
            rec.ev('ret', v=vec(x), sh=list(np.shape(x)), xsh=list(it.xsh))
        # the same number of iterations in one call
        s = build(n, 1)
        other('division into calls', s, s.solve(), n)
        # a run divided into two calls, iteration count at a large value
        s = build(1, 1)
        s.k = 300
        s.solve()
        if n > 1:
            s.opt['MaxMainIter'] = n - 1
            other('iteration number', s, s.solve(), 300 + n)
        # groups processed in another order
        s = build(n, 1)
        turn = [0]

        def distribute(f, m):
            prm = p['prm'][turn[0] % len(p['prm'])]
            turn[0] += 1
            order = [i - 1 for i in prm if i <= m]
            order += [i for i in range(m) if i not in order]
            res = {i: f(i) for i in order}
            return [res[i] for i in range(m)]
        s.distribute = distribute
        other('order of the groups', s, s.solve(), n)
        if p['par']:
            s = build(n, 1 + p['np'])
            other('number of processes', s, s.solve(), n)
            # statistics are not evaluated
            s = build(n, 2, {'FastSolve': True, 'AutoRho':
                             {'Enabled': False}})
            x = s.solve()
            rec.ev('ret', v=vec(x), sh=list(np.shape(x)), xsh=list(it.xsh))

        if c['sd']:
            s = build(1, 1)
            s.setdict(it.D2)
            rec.ev('setdict', D=arr(it.D2.reshape(it.args[0].shape)))
            y, u = observe(par, it, s)
            rec.ev('start', Y=vec(y), U=vec(u), Y0=[] if y0 is None else
                   vec(y0), U0=[] if u0 is None else vec(u0))
            x = s.solve()
            y, u = observe(par, it, s)
            rec.ev('iter', X=vec(np.moveaxis(np.asarray(par.mp_Xnr), 0, -1)),
                   Y=vec(y), U=vec(u), rho=fx(s.rho, 256), st=stats(s, 0),
                   r=fx(s.getitstat().PrimalRsdl[0], 4096))
            rec.ev('ret', v=vec(x), sh=list(np.shape(x)), xsh=list(it.xsh))

    started = []
    for i, q in enumerate(scn):
        c, p = q['c'], q['p']
        key = 'par%d' % i
        try:
            run(key, c, p, started)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if not any('/sporco/' in f.filename for f in tb):
                raise
            if key not in started[-1:]:
                rec.trace(key, judge='ParTrace', shards=4,
                          cfg={'cls': 'none', 'of': c})
            rec.ev('exc', t='%r at %s:%d' % (e, tb[-1].filename,
                                             tb[-1].lineno))
