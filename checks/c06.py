"""Harness for the PGM base classes: quadratic f, scripted proximal map,
observed through the methods a problem class supplies and the callback."""
import json
import os

Q = 1024.0


def models(tier):
    if tier == 'quick':
        return [{'module': 'Pgm', 'cfg': 'Pgm.cfg'}]
    return [{'module': 'Pgm', 'workers': 8, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANTS MaxIters = 3\n MaxSolves = 2\n'
             ' MaxBt = 3\n'
             'INVARIANTS IterationNumbers CountIsTotal StatsComplete '
             'MonotoneObjective StepOnlyGrows TriesBounded\n'
             'CHECK_DEADLOCK FALSE\n'}]


def generators(tier, seed):
    n = 1500 if tier == 'quick' else 12000
    return [{'module': 'PgmGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 11 + 5))}]


def harness(rec):
    from vlib.fakeclock import CLOCK, install
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import sporco.util as su
    install(su)
    from sporco.pgm import pgm
    from sporco.pgm import backtrack, momentum, stepsize
    from vlib.core import fx

    def iv(a):
        return [fx(v, Q) for v in np.asarray(a).ravel()]

    def sgn(a, b):
        a, b = float(a), float(b)
        if a == b:
            return 0
        if abs(a - b) <= 1e-10 * max(abs(a), abs(b)):
            return 2
        return -1 if a < b else 1

    class Mix(object):
        def script(self, c, h, b):
            self.c, self.h, self.b = c, h, b
            self.at = []
            self.cost = {'p': 0.0, 'f': 0.0, 'r': 0.0}
            self.xs = self.X.copy()
            self.ur = 0

        def adv(self, w, d):
            CLOCK.now += d
            self.cost[w] += d

        def fval(self, x):
            return float(np.sum(self.h * x * x / 2 - self.b * x))

        def gval(self, x):
            return float(np.sum(np.abs(x)) / 2)

        def prox_g(self, V):
            V = np.array(V)
            self.adv('p', 1.0)
            if self.c['px'] == 'q':
                P = np.clip(np.round(V * 2) / 2, -2, 2)
            else:
                P = np.clip(0.75 * V, -2, 2)
            y = self.yspat()
            prev = self.fval(self.xs) + self.gval(self.xs)
            self.at.append(dict(
                L=fx(self.L, Q), Y=iv(y), V=iv(V), P=iv(P),
                fp=fx(self.fval(P), Q), fq=fx(self.fval(self.xs), Q),
                fy=fx(self.fval(y), Q),
                c=sgn(prev, self.fval(P) + self.gval(P))))
            return P

        def obfn_g(self, X):
            self.adv('f', 16.0)
            return self.gval(X)

    class Gen(Mix, pgm.PGM):
        def yspat(self):
            return self.Y

        def grad_f(self, V=None):
            v = self.Y if V is None else V
            return self.h * v - self.b

        def hessian_f(self, V):
            return self.h * V

        def obfn_f(self, X):
            return self.fval(X)

        def rsdl(self):
            self.adv('r', 64.0)
            return super(Gen, self).rsdl()

    class Dft(Mix, pgm.PGMDFT):
        def spat(self, Xf):
            return np.fft.irfft(Xf, 4)

        def yspat(self):
            return self.spat(self.Yf)

        def grad_f(self, V=None):
            v = self.Yf if V is None else V
            return self.h[0] * v - np.fft.rfft(self.b)

        def hessian_f(self, V):
            return self.h[0] * V

        def obfn_f(self, Xf):
            return self.fval(self.spat(Xf))

        def eval_objfn(self):
            f, g = self.fval(self.X), self.obfn_g(self.X)
            return (f + g, f, g)

        def rsdl(self):
            self.adv('r', 64.0)
            self.ur = float(np.linalg.norm(self.spat(self.Xf - self.Yfprv)))
            return self.ur

    def run(key, c):
        fr = lambda q: float(q[0]) / q[1]  # noqa: E731
        n = 2 if c['ty'] == 'gen' else 4
        h = np.array(c['h'][:n], dtype=float)
        if c['ty'] == 'dft':
            h[:] = h[0]
        b = np.array(c['b'][:n], dtype=float) / 2
        x0 = np.array(c['x0'][:n], dtype=float) / 2
        cls = Gen if c['ty'] == 'gen' else Dft
        m = c['mom']
        optd = {'MaxMainIter': 1, 'RelStopTol': fr(c['tol']),
                'FastSolve': c['fast'], 'IterTimer': c['tmr'],
                'L': fr(c['L']), 'Monotone': c['mono'],
                'AutoStop': {'Enabled': c['auto'], 'Tau0': fr(c['tau0'])},
                'Momentum': {'nest': lambda: momentum.MomentumNesterov(),
                             'lin': lambda: momentum.MomentumLinear(
                                 b=float(m['b'])),
                             'gen': lambda: momentum.MomentumGenLinear(
                                 a=float(m['a']), b=float(m['b']))}[m['ty']](),
                'Backtrack': {'none': lambda: None,
                              'std': lambda: backtrack.BacktrackStandard(
                                  gamma_u=fr(c['gu']), maxiter=c['maxbt']),
                              'rob': lambda: backtrack.BacktrackRobust(
                                  gamma_d=fr(c['gd']), gamma_u=fr(c['gu']),
                                  maxiter=c['maxbt'])}[c['bt']](),
                'StepSizePolicy': {
                    'none': lambda: None,
                    'cauchy': lambda: stepsize.StepSizePolicyCauchy(),
                    'bb': lambda: stepsize.StepSizePolicyBB()}[c['ssp']]()}
        if c['setx0']:
            optd['X0'] = x0
        else:
            x0 = np.zeros(n)
        opt = cls.Options(optd)
        o = dict(ty=c['ty'], bt=c['bt'], ssp=c['ssp'], mono=c['mono'],
                 fast=c['fast'], mom=m, gu=c['gu'], gd=c['gd'],
                 maxbt=c['maxbt'], h=[int(v) for v in h], b=iv(b),
                 xtol=0 if c['ty'] == 'gen' else 1)
        rec.trace(key, judge='PgmTrace', o=o, X0=iv(x0), L0=fx(opt['L'], Q))
        try:
            if c['ty'] == 'gen':
                s = cls((n,), np.float64, opt)
                s.Y = s.X.copy()
            else:
                s = cls((n,), (n,), (0,), np.float64, opt)
                s.Xf = np.fft.rfft(s.X)
                s.Yf = s.Xf.copy()
                s.Vf = s.Xf.copy()
            s.script(c, h, b)
            s.timer.stop('init')
            state = {'n': 0, 'f': 0.0}

            def cb(obj):
                k = state['n']
                state['n'] += 1
                y = obj.yspat()
                fin = bool(np.isfinite(obj.L) and np.all(np.isfinite(y)) and
                           np.all(np.isfinite(obj.X)))
                if not fin:
                    rec.ev('nonfin')
                    state['bad'] = True
                    return True
                out = 0 <= float(obj.L) < 0.2 or float(obj.L) > 200 or \
                    float(np.max(np.abs(y))) > 40
                ret = out or (c['cb'] != 0 and k + 1 == c['cb'])
                has = len(obj.itstat) > 0 and not opt['FastSolve']
                st = dict(has=False, iter=-1, obj=0, f=0, g=0, r=0, F=0, Q=0,
                          bt=0, L=0, time=0)
                cr = 1
                if has:
                    z = obj.itstat[-1]
                    bt = c['bt'] != 'none'
                    st = dict(has=True, iter=z.Iter, obj=fx(z.ObjFun, Q),
                              f=fx(z.FVal, Q), g=fx(z.GVal, Q),
                              r=fx(z.Rsdl, Q),
                              F=fx(z.F_Btrack, Q) if bt else 0,
                              Q=fx(z.Q_Btrack, Q) if bt else 0,
                              bt=z.IterBTrack if bt else 0,
                              L=fx(z.L, Q), time=fx(z.Time, 1))
                    tol = (fr(c['tau0']) / (1.0 + k) if c['auto'] else
                           fr(c['tol']))
                    cr = sgn(z.Rsdl, tol)
                p, f, r = obj.cost['p'], obj.cost['f'], obj.cost['r']
                bt = c['bt'] != 'none'
                tm = dict(solve=p + f + r, solve_wo_func=p + r,
                          solve_wo_rsdl=p,
                          solve_wo_btrack=0.0 if bt else p)
                rec.ev('it', k=obj.k, X=iv(obj.X), Y=iv(y), L=fx(obj.L, Q),
                       at=obj.at, st=st, cr=cr, cb=bool(ret), out=bool(out),
                       nstat=len(obj.itstat), fx=fx(obj.fval(obj.X), Q),
                       gx=fx(obj.gval(obj.X), Q), ur=fx(obj.ur, Q),
                       thi=fx(tm[c['tmr']], 1),
                       tlo=fx(tm[c['tmr']] - (f - state['f'] if c['tmr'] ==
                                              'solve' else 0), 1))
                state['f'] = f
                obj.at = []
                obj.xs = obj.X.copy()
                return ret
            s.opt['Callback'] = cb
            for mx in c['solves']:
                s.opt['MaxMainIter'] = mx
                rec.ev('start', max=mx, X=iv(s.X), Y=iv(s.yspat()),
                       L=fx(s.L, Q))
                v = s.solve()
                if state.get('bad'):
                    break
                iters = [] if not s.itstat else [
                    int(q) for q in s.getitstat().Iter]
                rec.ev('ret', k=s.k, nstat=len(s.itstat), iters=iters,
                       v=iv(v))
                if not (0.2 < float(s.L) < 200) or \
                        float(np.max(np.abs(s.yspat()))) > 40:
                    break
        except Exception as e:
            rec.ev('exc', t=repr(e))

    with open(os.environ['VERIF_SCN']) as f:
        scn = json.load(f)
    for n, sc in enumerate(scn):
        run('%s%d' % (sc['s']['ty'], n), sc['s'])
