"""Harness for the ADMM base classes: subclasses with scripted x/y updates,
observed through the public interface (method overriding and callbacks)."""
import json
import os

Q = 1024.0


def models(tier):
    if tier == 'quick':
        return [{'module': 'Admm', 'cfg': 'Admm.cfg'}]
    return [{'module': 'Admm', 'workers': 8, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANTS MaxIters = 3\n MaxSolves = 4\n'
             'INVARIANTS IterationNumbers CountIsTotal StatsComplete '
             'DualConsistent AdaptOnlyWhenEnabled AdaptOnlyAtPeriod\n'
             'CHECK_DEADLOCK FALSE\n'}]


def generators(tier, seed, off=0):
    n = 1500 if tier == 'quick' else 12000
    return [{'module': 'AdmmGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 7 + off))}]


def harness(rec, scope):
    from vlib.fakeclock import CLOCK, install
    import numpy as np
    import sporco.util as su
    install(su)
    from sporco.admm import admm
    from vlib.core import fx
    judge = 'AdmmTrace@AdmmTrace' + scope

    def iv(a):
        """array -> integers in units 1/1024"""
        a = np.asarray(a)
        if a.ndim == 2:          # consensus: (n, Nb) -> block major
            a = a.T
        return [fx(v, Q) for v in a.ravel()]

    def sgn(a, b):
        a, b = float(a), float(b)
        if a == b:
            return 0
        if abs(a - b) <= 1e-10 * max(abs(a), abs(b)):
            return 2
        return -1 if a < b else 1

    class Mix(object):
        """Scripted updates and observation shared by all types."""

        def script(self, c):
            self.c = c
            self.t = 0
            self.seq = []
            self.cost = {'x': 0.0, 'y': 0.0, 'f': 0.0, 'r': 0.0}
            self.nrc = 0
            self.pv, self.prho = [], 0
            self.exp = None
            self.yAX, self.yU = [], []
            self.xsee = True
            self.kept = True

        def adv(self, w, d):
            CLOCK.now += d
            self.cost[w] += d

        def rhochange(self):
            super(Mix, self).rhochange()
            self.nrc += 1

        def xstep(self):
            self.seq.append('x')
            self.adv('x', 1.0)
            last = self.exp
            if last is not None:
                self.xsee = (np.array_equal(last[0], self.Y) and
                             np.array_equal(last[1], self.U) and
                             last[2] == self.rho)
            self.X = self.scr_x()

        def see_y(self):
            self.seq.append('y')
            self.adv('y', 2.0)
            self.yAX, self.yU = iv(self.AX), iv(self.U)

        def ystep(self):
            self.see_y()
            self.Y = self.scr_y()

        def scr_x(self):
            v = np.array(self.c['xs'][self.t][:self.nx_], dtype=float) / 2
            return v

        def scr_y(self):
            v = np.array(self.c['ys'][self.t][:self.ny_], dtype=float) / 2
            self.t += 1
            return v

        def lin(self, w, v):
            self.adv('f', 16.0)
            return float(np.dot(np.array(w, dtype=float), np.ravel(v)))

    class Gen(Mix, admm.ADMM):
        def obfn_f(self, X):
            return self.lin((1, 2), X)

        def obfn_g(self, Y):
            return self.lin((3, -1), Y)

        def cnst_A(self, X):
            return self.A.dot(X)

        def cnst_AT(self, Y):
            return self.A.T.dot(Y)

        def cnst_B(self, Y):
            return self.B.dot(Y)

        def cnst_c(self):
            return self.cc

    class Eq(Mix, admm.ADMMEqual):
        def obfn_f(self, X):
            return self.lin((1, 2), X)

        def obfn_g(self, Y):
            return self.lin((3, -1), Y)

    class Two(Mix, admm.ADMMTwoBlockCnstrnt):
        def obfn_f(self, X):
            return self.lin((1, 2), X)

        def obfn_g0(self, Y):
            return self.lin((3, -1), Y)

        def obfn_g1(self, Y):
            return self.lin((2,), Y)

        def cnst_A0(self, X):
            return self.A[:2].dot(X)

        def cnst_A1(self, X):
            return self.A[2:].dot(X)

        def cnst_A0T(self, Y):
            return self.A[:2].T.dot(Y)

        def cnst_A1T(self, Y):
            return self.A[2:].T.dot(Y)

        def cnst_c0(self):
            return self.cc[:2]

        def cnst_c1(self):
            return self.cc[2:]

    class ConsMix(Mix):
        def xstep(self):
            self.seq.append('x')
            self.adv('x', 1.0)
            last = self.exp
            if last is not None:
                self.xsee = (np.array_equal(last[0], self.Y) and
                             np.array_equal(last[1], self.U) and
                             last[2] == self.rho)
            if self.X is None:
                self.X = np.zeros(self.xshape)
            self.X = self.X.copy()
            self.order = []
            super(Mix, self).xstep()
            if self.order != list(range(self.Nb)):
                self.xsee = False

        def xistep(self, i):
            self.order.append(i)
            self.X[..., i] = np.array(self.c['xs'][self.t][2 * i:2 * i + 2],
                                      dtype=float) / 2

        def ystep(self):
            self.see_y()
            super(Mix, self).ystep()

        def prox_g(self, X, rho):
            self.pv, self.prho = iv(X), fx(rho, 16384)
            return self.scr_y()

        def obfn_fi(self, X, i):
            return (i + 1) * self.lin((1, 2), X)

        def obfn_g(self, Y):
            return self.lin((3, -1), Y)

    class Cons(ConsMix, admm.ADMMConsensus):
        pass

    class WCons(ConsMix, admm.WeightedADMMConsensus):
        pass

    def run(key, c):
        fr = lambda q: float(q[0]) / q[1]  # noqa: E731
        ty, nb = c['ty'], c['nb']
        c['xs'] = [v for v in c['xs']]
        optd = {'MaxMainIter': 1, 'RelaxParam': fr(c['al']),
                'AbsStopTol': fr(c['abs']), 'RelStopTol': fr(c['rel']),
                'FastSolve': c['fast'], 'IterTimer': c['tmr'],
                'rho': fr(c['rho']),
                'AutoRho': {'Enabled': c['en'], 'Period': c['period'],
                            'Scaling': fr(c['tau']), 'RsdlRatio': fr(c['mu']),
                            'RsdlTarget': fr(c['xi']),
                            'AutoScaling': c['autos'],
                            'StdResiduals': c['std']}}
        A = np.array(c['A'], dtype=float)
        B = np.array(c['B'], dtype=float)
        cc = np.array(c['c'], dtype=float) / 2
        I2 = np.eye(2)
        wts, fw, w, sa2 = [1] * nb, [1] * nb, None, 0
        if ty == 'gen':
            ny, ush, ysh = 2, (3,), (2,)
        elif ty == 'eq':
            A, B, cc = I2, -I2, np.zeros(2)
            ny, ush, ysh = 2, (2,), (2,)
        elif ty == 'two':
            B = -np.eye(3)
            ny, ush, ysh = 3, (3,), (3,)
        else:
            A = np.eye(2 * nb)
            B = np.vstack([-I2] * nb)
            cc = np.zeros(2 * nb)
            ny, ush, ysh = 2, (2, nb), (2,)
            if ty == 'wcons':
                sq = [1, 2, 1][:nb]
                wts = [v * v for v in sq]
                fw = wts
                w = [v for v in sq for _ in range(2)]
                sa2 = sum(v * v for v in wts)
        m = A.shape[0]
        if w is None:
            w = [1] * m
        y0 = np.array(c['y0'][:ny], dtype=float) / 2
        u0 = np.array(c['u0'][:m], dtype=float) / 2
        if ty in ('cons', 'wcons'):
            u0 = u0.reshape(nb, 2).T.copy()
        Y0 = y0 if c['init'] in ('y0', 'both') else np.zeros(ny)
        U0 = u0 if c['init'] in ('u0', 'both') else np.zeros(u0.shape)
        if c['init'] in ('y0', 'both'):
            optd['Y0'] = y0
        if c['init'] in ('u0', 'both'):
            optd['U0'] = u0
        cls = {'gen': Gen, 'eq': Eq, 'two': Two, 'cons': Cons,
               'wcons': WCons}[ty]
        evx, evy = c['evx'], c['evy']
        if ty in ('cons', 'wcons'):
            if c['aux']:
                evx, evy = False, True
                optd['AuxVarObj'] = True
            else:
                evx, evy = True, False
                optd['AuxVarObj'] = False
        elif ty == 'eq':
            optd.update({'fEvalX': evx, 'gEvalY': evy, 'ReturnX': c['retx']})
        elif ty == 'two':
            optd.update({'AuxVarObj': c['aux'], 'ReturnVar': c['ret']})
        opt = cls.Options(optd)
        P = dict(A=A.astype(int), B=B.astype(int), c=iv(cc), w=w, sa2=sa2)
        nx = 2 * nb
        o = dict(ty=ty, nb=nb, al=c['al'], std=c['std'], fast=c['fast'],
                 en=c['en'], period=c['period'], tau=c['tau'],
                 autos=c['autos'], abs=fx(fr(c['abs']), Q),
                 rel=fx(fr(c['rel']), Q), snc=fx(np.sqrt(m), Q),
                 snx=fx(np.sqrt(nx), Q), evx=evx, evy=evy, aux=c['aux'],
                 ret=c['ret'], retx=c['retx'], wts=wts, fw=fw,
                 wsum=sum(wts))
        rec.trace(key, judge=judge, P=P, o=o, Y0=iv(Y0), U0=iv(U0),
                  rho0=fx(fr(c['rho']), 16384))
        try:
            if ty == 'gen':
                b = cls.__new__(cls)
                b.A, b.B, b.cc = A, B, cc
                b.__init__(nx, ysh, ush, np.float64, opt)
            elif ty == 'eq':
                b = cls(ysh, np.float64, opt)
            elif ty == 'two':
                b = cls.__new__(cls)
                b.A, b.cc = A, cc
                b.__init__(nx, ysh, 0, 2, np.float64, opt)
            elif ty == 'cons':
                b = cls(nb, ysh, np.float64, opt)
            else:
                b = cls(nb, np.array(wts, dtype=float), ysh, np.float64, opt)
            b.nx_, b.ny_ = nx, ny
            b.script(c)
            b.timer.stop('init')
            state = {'rho': float(b.rho), 'n': 0, 'f': 0.0}

            def cb(obj):
                n = state['n']
                state['n'] += 1
                ret = c['cb'] != 0 and n + 1 == c['cb']
                rho = float(obj.rho)
                has = len(obj.itstat) > 0 and not opt['FastSolve']
                st = dict(has=False, iter=-1, obj=0, f=0, g=0, g1=0, r=0,
                          s=0, ep=0, ed=0, rho=0, time=0)
                cr = cs = c1 = c2 = 1
                amul = 0
                if has:
                    z = obj.itstat[-1]
                    g0 = z.G0Val if ty == 'two' else z.GVal
                    st = dict(has=True, iter=z.Iter, obj=fx(z.ObjFun, Q),
                              f=fx(z.FVal, Q), g=fx(g0, Q),
                              g1=fx(z.G1Val, Q) if ty == 'two' else 0,
                              r=fx(z.PrimalRsdl, Q), s=fx(z.DualRsdl, Q),
                              ep=fx(z.EpsPrimal, Q), ed=fx(z.EpsDual, Q),
                              rho=fx(z.Rho, 16384), time=fx(z.Time, 1))
                    r, s, ep, ed = (z.PrimalRsdl, z.DualRsdl, z.EpsPrimal,
                                    z.EpsDual)
                elif c['en']:
                    # fast mode with adaptation: the same quantities, from
                    # the solver's own public method, before rescaling
                    r, s, ep, ed = obj.rsd
                if has or c['en']:
                    cr, cs = sgn(r, ep), sgn(s, ed)
                    mu, xi = fr(c['mu']), fr(c['xi'])
                    c1, c2 = sgn(r, xi * mu * s), sgn(s, mu / xi * r)
                    if r == 0 or s == 0:
                        amul = 4096 * 64
                    else:
                        q = r / (s * xi)
                        amul = fx(np.sqrt(max(q, 1 / q)), 4096)
                tm = dict(solve=sum(obj.cost.values()),
                          solve_wo_func=sum(obj.cost.values()) -
                          obj.cost['f'],
                          solve_wo_rsdl=obj.cost['x'] + obj.cost['y'])
                rec.ev('it', k=obj.k, X=iv(obj.var_x()), Y=iv(obj.var_y()),
                       U=iv(obj.var_u()), rho=fx(rho, 16384),
                       q=fx(rho / state['rho'], 4096), st=st, cr=cr, cs=cs,
                       c1=c1, c2=c2, amul=amul, cb=ret, last=False,
                       nx=obj.seq.count('x'), ny=obj.seq.count('y'),
                       xfirst=obj.seq[:1] == ['x'], nstat=len(obj.itstat),
                       nrc=obj.nrc, pv=obj.pv, prho=obj.prho, yAX=obj.yAX,
                       yU=obj.yU, xsee=bool(obj.xsee), kept=bool(obj.kept),
                       thi=fx(tm[c['tmr']], 1), tlo=fx(
                           tm[c['tmr']] - (obj.cost['f'] - state['f'] if
                           c['tmr'] == 'solve' else 0), 1))
                state['f'] = obj.cost['f']
                state['rho'] = rho
                obj.seq, obj.nrc = [], 0
                obj.exp = (obj.Y.copy(), obj.U.copy(), obj.rho)
                return ret
            b.opt['Callback'] = cb
            # record residuals as computed (needed in fast mode only)
            orig = b.compute_residuals

            def cres():
                b.rsd = orig()
                b.adv('r', 64.0)
                return b.rsd
            b.compute_residuals = cres
            for mx in c['solves']:
                if b.t + mx > len(c['xs']):
                    break
                b.opt['MaxMainIter'] = mx
                rec.ev('start', max=mx, Y=iv(b.Y), U=iv(b.U),
                       rho=fx(b.rho, 16384))
                v = b.solve()
                its = b.getitstat()
                iters = [] if not b.itstat else [int(q) for q in its.Iter]
                rec.ev('ret', k=b.k, nstat=len(b.itstat), iters=iters,
                       v=iv(v) if v is not None else [])
        except Exception as e:
            rec.ev('exc', t=repr(e))

    with open(os.environ['VERIF_SCN']) as f:
        scn = json.load(f)
    for n, sc in enumerate(scn):
        run('%s%d' % (sc['s']['ty'], n), sc['s'])
