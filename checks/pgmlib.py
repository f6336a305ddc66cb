"""Instances and recorded runs of the concrete PGM solver classes."""
import numpy as np
from checks import solverlib as sl

BASE = {'pgmBPDN': 'BPDN', 'pgmWeightedBPDN': 'BPDN',
        'pgmCnstrMOD': 'CnstrMOD', 'pgmWeightedCnstrMOD': 'CnstrMOD',
        'pgmConvBPDN': 'ConvBPDN', 'pgmConvBPDNMask': 'ConvBPDNMaskDcpl',
        'pgmConvCnstrMOD': 'ConvCnstrMOD_IterSM',
        'pgmConvCnstrMODMask': 'ConvCnstrMODMaskDcpl_IterSM',
        'pgmPPP': 'PPP'}
CLS = tuple(BASE)
MOD = {'pgmBPDN': 'bpdn', 'pgmWeightedBPDN': 'bpdn', 'pgmCnstrMOD': 'cmod',
       'pgmWeightedCnstrMOD': 'cmod', 'pgmConvBPDN': 'cbpdn',
       'pgmConvBPDNMask': 'cbpdn', 'pgmConvCnstrMOD': 'ccmod',
       'pgmConvCnstrMODMask': 'ccmod', 'pgmPPP': 'ppp'}


def make(c, fx, arr):
    """Arguments of the class, from those of the corresponding ADMM class."""
    import importlib
    from sporco.pgm import momentum, stepsize, backtrack
    cls = c['cls']
    d = dict(c, cls=BASE[cls], norho=False)
    it = sl.make(d, fx, arr)
    o0, dt = it.o, it.dt
    it.mod = importlib.import_module('sporco.pgm.' + MOD[cls])
    it.C = getattr(it.mod, cls[3:])
    o = {k: o0[k] for k in ('NonNegCoef', 'NoBndryCross', 'ZeroMean')
         if k in o0}
    it.cfg.update(cls=cls, fx=True, gy=False, aux=False)
    if cls in ('pgmConvBPDN', 'pgmConvBPDNMask') and c['wk'] == 'full':
        # weights are multiplied with the coefficient array
        o0['L1Weight'] = sl.take(c['w'], it.xsh, dt) / 4
        it.cfg['wl1'] = arr(o0['L1Weight'], 4)
    if 'L1Weight' in o0:
        o['L1Weight'] = o0['L1Weight']
    if cls.endswith('CnstrMOD') and 'Conv' not in cls:
        o['NonNegCoef'] = c['nn'] and not c['zm']
        it.cfg['nn'] = o['NonNegCoef']
        it.cfg['D'] = arr(it.args[0])
        it.cfg['S'] = arr(it.args[1])
    if cls.startswith('pgmWeighted'):
        S = it.args[1]
        W = {'none': None, 'n': sl.take(c['W'], S.shape[:1], dt) / 4,
             'full': sl.take(c['W'], S.shape, dt) / 4,
             'bin': (sl.take(c['W'], S.shape, dt) > 2).astype(dt)}[c['mk']]
        it.kw = {} if W is None and c['nd'] else {'W': W}
        if W is None:
            W = np.ones((1, 1), dtype=dt)
        it.cfg['W'] = arr(W if W.ndim == 2 else W.reshape(-1, 1), 4)
    if cls == 'pgmConvCnstrMODMask':
        # mask in the internal layout, possibly without trailing axes
        Z, S, W, dsz = it.args
        sh = it.cfg['W']['sh'] + [1]
        if c['nd']:
            while len(sh) > len(it.N) and sh[-1] == 1:
                sh = sh[:-1]
        it.args = [Z, S, W.reshape(sh), dsz]
    o['MaxMainIter'] = c['nit']
    o['RelStopTol'] = 0.0
    o['L'] = float(c['sL'])
    o['Momentum'] = [momentum.MomentumNesterov(), momentum.MomentumNesterov(),
                     momentum.MomentumLinear(),
                     momentum.MomentumGenLinear()][c['mom']]
    it.bt = False
    if c['ssp'] == 1:
        o['StepSizePolicy'] = stepsize.StepSizePolicyCauchy()
        o['MaxMainIter'] = 3
    elif c['ssp'] == 2:
        o['StepSizePolicy'] = stepsize.StepSizePolicyBB()
        o['MaxMainIter'] = 3
    elif c['ssp'] == 3:
        o['Backtrack'] = backtrack.BacktrackStandard(maxiter=4)
        it.bt = True
    if cls == 'pgmPPP':
        S = it.cfg['S']
        S = np.array(S['v'], dtype=dt).reshape(S['sh'])
        lam = c['lm'] / 16.0
        o['DataType'] = dt
        if 'Backtrack' in o or 'StepSizePolicy' in o:
            o.pop('Backtrack', None)
            o.pop('StepSizePolicy', None)
            it.bt = False
        it.args = [S.shape, lambda X: 0.5 * np.sum((X - S)**2),
                   lambda X: X - S,
                   lambda V, L: np.sign(V) * np.maximum(0, np.abs(V) -
                                                        lam / L)]
    it.o = o
    it.dft = cls.startswith('pgmConv')
    return it


def observe(cls):
    class Obs(cls):
        def spat(self, V):
            if hasattr(self, 'Xf'):
                from sporco.fft import irfftn
                return irfftn(V, self.Nv, self.axisN)
            return np.array(V, copy=True)

        def xstep(self, grad=None):
            y = self.spat(self.Yf if hasattr(self, 'Yf') else self.Y)
            if not hasattr(self, '_rec_'):
                self._rec_ = []
            g = super(Obs, self).xstep(grad)
            self._now_ = {'Y': y, 'L': float(self.L), 'G': self.spat(g),
                          'g0': np.max(np.abs(g))}
            return g

        def on_iteration_start(self):
            super(Obs, self).on_iteration_start()
            self._xp_ = np.array(self.X, copy=True)

        def ystep(self):
            tp = self.t
            super(Obs, self).ystep()
            r = dict(self._now_)
            r['Xp'] = self._xp_
            r['X'] = np.array(self.X, copy=True)
            r['Yn'] = self.spat(self.Yf if hasattr(self, 'Yf') else self.Y)
            r['b'] = (tp - 1.0) / self.t
            self._rec_.append(r)
    Obs.__name__ = cls.__name__
    return Obs


def harness(rec):
    import json
    import os
    import warnings
    warnings.simplefilter('ignore')
    import sporco.fft as ft
    from vlib.core import fx, arr
    ft.pyfftw_planner_effort = 'FFTW_ESTIMATE'
    ft.pyfftw_threads = 1
    obs = {}
    started = []

    def vec(a):
        return sl.vec(fx, a)

    def run(key, c):
        it = make(c, fx, arr)
        cls = c['cls']
        Obs = obs.setdefault(it.C, observe(it.C))
        cfg = dict(it.cfg)
        o = dict(it.o)
        x0 = None
        cfg['y0'] = bool(c['hy0'])
        if c['hy0']:
            x0 = sl.take(c['y0'], it.xsh, it.dt)
            o['X0'] = x0.copy()
        rec.trace(key, judge='SolversTrace', shards=6, cfg=cfg)
        started.append(key)
        if c['norho']:
            it.C(*it.args, **it.kw)
        s = Obs(*it.args, opt=it.C.Options(o), **it.kw)
        rec.ev('pstart', X=vec(s.X), Y=vec(s.spat(s.Yf if it.dft else s.Y)),
               X0=[] if x0 is None else vec(x0))

        def finish(x, lo):
            rows = s.getitstat()
            ok = True
            for i in range(lo, len(s._rec_)):
                r = s._rec_[i]
                j = i
                if not r['L'] < 1e6:
                    ok = False     # step size undefined at a fixed point
                    break
                st = {}
                for f in rows._fields:
                    if f in ('ObjFun', 'DFid', 'RegL1', 'Cnstr', 'FVal'):
                        st[f] = fx(getattr(rows, f)[j], 1024)
                rec.ev('pit', k=i + 1, Yp=vec(r['Y']), Y=vec(r['Yn']),
                       Xp=vec(r['Xp']), X=vec(r['X']), G=vec(r['G']),
                       L=fx(r['L'], 256), b=fx(r['b'], 16384), st=st,
                       r=fx(rows.Rsdl[j], 1024))
            if not ok:
                return False
            rec.ev('ret', var='X', v=vec(x), lo=1, hi=0,
                   sh=list(np.shape(x)), xsh=list(it.xsh))
            if 'CnstrMOD' in cls:
                d = s.getdict()
                if it.dft:
                    rec.ev('dict', v=vec(d), sh=list(np.shape(d)))
                    d = s.getdict(crop=False)
                rec.ev('ret', var='X', v=vec(d), lo=1, hi=0,
                       sh=list(np.shape(d)), xsh=list(it.xsh))
            elif cls != 'pgmPPP':
                d = s.getcoef()
                rec.ev('ret', var='X', v=vec(d), lo=1, hi=0,
                       sh=list(np.shape(d)), xsh=list(it.xsh))
            if cls != 'pgmPPP':
                r = s.reconstruct()
                rec.ev('recon', given=False, x=[], v=vec(r))
                X = sl.take(c['x'], it.xsh, it.dt)
                r = s.reconstruct(X)
                rec.ev('recon', given=True, x=vec(X), v=vec(r))
                if it.dft:
                    from sporco.fft import rfftn
                    Xf = rfftn(X, None, s.axisN)
                    h, g = s.spat(s.hessian_f(Xf)), s.spat(s.grad_f(Xf))
                else:
                    h, g = s.hessian_f(X), s.grad_f(X)
                rec.ev('hess', V=vec(X), v=vec(h), g=vec(g))
            return True
        x = s.solve()
        if not finish(x, 0):
            return
        if c['sd'] and cls != 'pgmPPP':
            lo = len(s._rec_)
            if 'Conv' not in cls and 'CnstrMOD' in cls:
                s.setcoef(it.D2)
                rec.ev('setdict', D=arr(it.D2))
            elif 'CnstrMOD' in cls:
                s.setcoef(it.D2)
                rec.ev('setcoef', Z=sl.zarr(it, arr, it.D2))
            else:
                s.setdict(it.D2)
                rec.ev('setdict', D=arr(it.D2.reshape(it.args[0].shape)))
            x = s.solve()
            finish(x, lo)

    with open(os.environ['VERIF_SCN']) as f:
        scn = [x['s'] for x in json.load(f)]
    for i, c in enumerate(scn):
        key = '%s%d' % (c['cls'], i)
        try:
            run(key, c)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if not any('/sporco/' in f.filename for f in tb):
                raise
            if key not in started[-1:]:
                rec.trace(key, judge='SolversTrace', shards=6,
                          cfg={'cls': 'none', 'of': c})
            rec.ev('exc', t='%s: %r at %s:%d' % (
                c['cls'], e, tb[-1].filename, tb[-1].lineno))
