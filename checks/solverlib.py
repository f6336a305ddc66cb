"""Instances and recorded runs of the concrete ADMM solver classes."""
import numpy as np

BP = ('BPDN', 'BPDNJoint', 'ElasticNet', 'BPDNProjL1', 'MinL1InL2Ball')
CB1 = ('ConvBPDN', 'ConvBPDNJoint', 'ConvElasticNet', 'ConvBPDNGradReg',
       'ConvBPDNProjL1')
CB2 = ('ConvMinL1InL2Ball', 'ConvBPDNMaskDcpl', 'ConvL1L1Grd')

CBTV = ('ConvBPDNScalarTV', 'ConvBPDNVectorTV', 'ConvBPDNRecTV')
PD = ('ConvProdDictBPDN', 'ConvProdDictBPDNJoint', 'ConvProdDictL1L1Grd',
      'ConvProdDictL1L1GrdJoint')
WRAP = ('AddMaskSim', 'MultiDictConvBPDN')

TV = ('TVL1Denoise', 'TVL2Denoise', 'TVL1Deconv', 'TVL2Deconv')
DU = ('CnstrMOD', 'ConvCnstrMOD_IterSM', 'ConvCnstrMOD_CG',
      'ConvCnstrMOD_Consensus', 'ConvCnstrMODMaskDcpl_IterSM',
      'ConvCnstrMODMaskDcpl_CG', 'ConvCnstrMODMaskDcpl_Consensus')
IMG = TV + ('SplineL1', 'RobustPCA', 'PPP', 'PPPConsensus')


def take(pool, sh, dt=np.float64, lay='C'):
    n = int(np.prod(sh)) if len(sh) else 1
    a = np.resize(np.array(pool), n).reshape(sh).astype(dt)
    return np.asfortranarray(a) if lay == 'F' else a


def observe(cls):
    """Subclass recording the variables around every iteration."""
    class Obs(cls):
        def _vx_(self):
            return np.array(self.var_x(), copy=True)

        def xstep(self, *a, **k):
            if not hasattr(self, '_rec_'):
                self._rec_ = []
            self._rec_.append({'Yp': np.array(self.var_y(), copy=True),
                               'Up': np.array(self.var_u(), copy=True),
                               'rho': float(self.rho)})
            if hasattr(self, 'Y1'):
                self._rec_[-1].update(Yp1=np.array(self.Y1, copy=True),
                                      Up1=np.array(self.U1, copy=True))
            super(Obs, self).xstep(*a, **k)

        def ustep(self, *a, **k):
            super(Obs, self).ustep(*a, **k)
            r = self._rec_[-1]
            r['X'] = self._vx_()
            r['Y'] = np.array(self.var_y(), copy=True)
            r['U'] = np.array(self.var_u(), copy=True)
            if hasattr(self, 'Y1'):
                r['Y1'] = np.array(self.Y1, copy=True)
                r['U1'] = np.array(self.U1, copy=True)
    Obs.__name__ = cls.__name__
    return Obs


class Instance(object):
    """A constructed solver with the description given to the judge."""
    pass


def conv_shapes(c, cd_ok=True):
    """Input shapes of a convolutional problem."""
    dN = c['dimN']
    N = tuple(c['N'][:dN])
    L = tuple(min(l, n) for l, n in zip(c['L'][:dN], N))
    M, C, K = c['M'], c['C'], c['K']
    while np.prod(N) * C * K * M > 48:
        if M > 1:
            M -= 1
        elif K > 1:
            K = 1
        elif C > 1:
            C = 1
        else:
            break
    Cd = C if (c['cdm'] and cd_ok) else 1
    Dsh = L + ((Cd,) if C > 1 and Cd > 1 else ()) + (M,)
    Ssh = N + ((C,) if C > 1 else ()) + ((K,) if K > 1 else ())
    # the role of a single extra axis of S is given by dimK
    dk = None
    if C > 1 and K == 1:
        dk = None if Cd > 1 and c['dk'] < 0 else 0
    elif C == 1 and K > 1:
        dk = None if c['dk'] < 0 else 1
    elif C > 1 and K > 1:
        dk = None if c['dk'] < 0 else 1
    return N, L, M, C, K, Cd, Dsh, Ssh, dk


def common_opt(c, aux2):
    o = {'MaxMainIter': c['nit'], 'rho': c['rho'] / 256.0,
         'RelaxParam': c['al'] / 4.0, 'RelStopTol': 0.0, 'AbsStopTol': 0.0,
         'AutoRho': {'Enabled': c['ar'], 'Period': c['arp'],
                     'AutoScaling': False, 'Scaling': 2.0,
                     'StdResiduals': c['std']}}
    return o


def weight(c, shX, W4=4.0):
    k = c['wk']
    if k == 'none':
        return None
    if k == 's':
        return c['w'][0] / W4
    return k


def make(c, fx, arr):
    """Build the arguments of the class; returns an Instance."""
    import importlib
    cls = c['cls']
    it = Instance()
    it.dt = np.dtype('f4' if c['f4'] else 'f8')
    o = common_opt(c, cls)
    cfg = {k: c[k] for k in ('cls', 'dimN', 'lm', 'mu', 'rad', 'nn', 'al',
                             'std', 'zm')}
    cfg['nbc'] = False
    dt = it.dt
    lam, mu, rad = c['lm'] / 16.0, c['mu'] / 16.0, c['rad'] / 4096.0
    cfg['wl1'] = arr(np.array(1.0), 4)
    cfg['wt2'] = arr(np.array(1.0), 4)
    cfg['wg'] = arr(np.ones(1), 1)
    cfg['W'] = arr(np.ones(1), 4)
    twoblock = cls in ('MinL1InL2Ball',) + CB2 + DU[4:6] + PD[2:]
    # objective variables
    if twoblock:
        o['AuxVarObj'] = c['aux']
        cfg['aux'] = c['aux']
        cfg['fx'], cfg['gy'] = True, False
        o['ReturnVar'] = c['rv']
    else:
        cfg['aux'] = False
        if c['useaux'] and cls != 'CnstrMOD' and cls not in CBTV:
            o['AuxVarObj'] = c['aux']
            cfg['fx'], cfg['gy'] = not c['aux'], c['aux']
        else:
            o['fEvalX'], o['gEvalY'] = c['fx'], c['gy']
            cfg['fx'], cfg['gy'] = c['fx'], c['gy']
        o['ReturnX'] = c['rx']
    it.kw = {}
    it.conv = False
    it.y0sh = None
    if cls in BP:
        mod = importlib.import_module('sporco.admm.bpdn')
        n, p, m = c['n'], c['p'], c['m']
        D = take(c['D'], (p, n), dt, c['lay'])
        S = take(c['S'], (p, m), dt, c['lay'])
        it.D2 = take(c['D2'], (p, n), dt)
        it.xsh = (n, m)
        it.ny = (n + p, m) if twoblock else (n, m)
        it.b0, it.b1 = (n, m), (p, m)
        if cls == 'BPDNProjL1':
            args = [D, S, rad]
        elif cls == 'MinL1InL2Ball':
            args = [D, S, rad]
        elif cls == 'BPDN':
            args = [D, S, lam]
        else:
            args = [D, S, lam, mu]
        if cls != 'BPDNProjL1':
            w = {'none': None, 's': c['w'][0] / 4.0,
                 'full': take(c['w'], (n, m), dt) / 4,
                 'm': take(c['w'], (n, 1), dt) / 4}[c['wk']]
            if w is not None:
                o['L1Weight'] = w
                cfg['wl1'] = arr(np.asarray(w), 4)
        o['NonNegCoef'] = c['nn']
        if cls != 'MinL1InL2Ball':
            o['LinSolveCheck'] = True
    elif cls == 'CnstrMOD':
        mod = importlib.import_module('sporco.admm.cmod')
        n, p, m = c['n'], c['p'], c['m']
        D = take(c['Z'], (m, n), dt, c['lay'])
        S = take(c['S'], (p, n), dt, c['lay'])
        it.D2 = take(c['Z'][20:], (m, n), dt)
        it.xsh = it.ny = (p, m)
        args = [D, S]
        o['ZeroMean'] = c['zm']
    elif cls in DU:
        make_du(c, it, cfg, o, fx, arr)
        mod = it.mod
        args = it.args
    elif cls in IMG:
        make_img(c, it, cfg, o, fx, arr)
        mod = it.mod
        args = it.args
    elif cls in CBTV + PD + WRAP:
        make_var(c, it, cfg, o, fx, arr)
        mod = it.mod
        args = it.args
    else:
        mod = importlib.import_module('sporco.admm.cbpdn')
        it.conv = True
        N, L, M, C, K, Cd, Dsh, Ssh, dk = conv_shapes(c)
        D = take(c['D'], Dsh, dt, c['lay'])
        S = take(c['S'], Ssh, dt, c['lay'])
        it.D2 = take(c['D2'], L + (Cd, 1, M), dt)
        it.xsh = N + (1 if Cd > 1 else C, K, M)
        it.ny = it.xsh
        it.b0, it.b1 = N + (C, K, 1), it.xsh
        it.kw = {'dimN': len(N)}
        if dk is not None:
            it.kw['dimK'] = dk
        cfg['dk'] = -1 if dk is None else dk
        cfg['W'] = arr(np.ones((1,) * (len(N) + 3)), 4)
        if cls in ('ConvBPDNProjL1', 'ConvMinL1InL2Ball'):
            args = [D, S, rad]
        elif cls in ('ConvBPDN', 'ConvBPDNMaskDcpl'):
            args = [D, S, lam]
        else:
            args = [D, S, lam, mu]
        if cls != 'ConvBPDNProjL1' and c['wk'] != 'none':
            full = Ssh + (M,)
            if Cd > 1:
                full = N + (1, K, M)
            w = {'s': c['w'][0] / 4.0, 'full': take(c['w'], full, dt) / 4,
                 'm': take(c['w'], (1,) * (len(N) + 2) + (M,), dt) / 4}[c['wk']]
            o['L1Weight'] = w
            cfg['wl1'] = arr(np.asarray(w), 4)
        if cls == 'ConvBPDNJoint' and c['w2k'] == 'm':
            w = take(c['w2'], (M,), dt) / 4
            o['L21Weight'] = w
            cfg['wt2'] = arr(w, 4)
        if cls in ('ConvBPDNGradReg', 'ConvL1L1Grd') and c['wgk'] == 'm':
            w = take(c['wg'], (M,), dt)
            o['GradWeight'] = w
            cfg['wg'] = arr(w, 1)
        if cls in ('ConvBPDNMaskDcpl', 'ConvL1L1Grd') and c['mk'] != 'none':
            if c['mk'] == 'n':
                W = take(c['W'], N, dt) / 4
            elif c['mk'] == 'bin':
                W = (take(c['W'], Ssh, dt) > 2).astype(dt)
            else:
                W = take(c['W'], Ssh, dt) / 4
            it.kw['W'] = W
            cfg['W'] = arr(W, 4)
        o['NonNegCoef'] = c['nn']
        o['NoBndryCross'] = c['nbc']
        cfg['nbc'] = c['nbc']
        o['LinSolveCheck'] = True
        o['HighMemSolve'] = c['hm']
    if c['norho']:
        del o['rho']
    if cls not in IMG + DU[1:] + CBTV + PD + WRAP:
        cfg['D'] = arr(D)
        cfg['S'] = arr(S)
    it.C = getattr(mod, cls)
    it.args = args
    it.o = o
    it.cfg = cfg
    it.two = twoblock
    it.sep = twoblock or cls == 'ConvBPDNRecTV'
    return it


def make_du(c, it, cfg, o, fx, arr):
    """Convolutional dictionary update classes."""
    import importlib
    cls = c['cls']
    dt = it.dt
    it.mod = importlib.import_module('sporco.admm.ccmodmd' if 'Mask' in cls
                                     else 'sporco.admm.ccmod')
    N, L, M, C, K, Cd, Dsh, Ssh, dk = conv_shapes(c)
    n = len(N)
    it.N, it.M, it.Cd = N, M, Cd
    Cx = C if Cd == 1 else 1
    # layout of the signals
    kx = not (K == 1 and c['dk'] == 0)
    Ssh = N + ((C,) if C > 1 else ()) + ((K,) if kx else ())
    dk = 1 if kx else 0
    if c['dk'] == 1 and ((C == 1 and kx) or (Cd > 1 and not kx) or
                         (C > 1 and kx)):
        dk = None
    it.kw = {'dimK': dk, 'dimN': n}
    S = take(c['S'], Ssh, dt, c['lay'])
    it.zsh = N + (Cx, K, M)
    Z = take(c['Z'], it.zsh, dt, c['lay'])
    it.D2 = take(c['Z'][20:], it.zsh, dt)
    ch = (Cd,) if Cd > 1 else ()
    if M > 1 and c['tr']:
        L2 = tuple(min(v, w) for v, w in zip(c['ash'], N))
        m0 = 1 + c['nb'] % (M - 1)
        dsz = (L + ch + (m0,), L2 + ch + (M - m0,))
        sup = [L] * m0 + [L2] * (M - m0)
    else:
        dsz = L + ch + (M,)
        sup = [L] * M
    cfg.update(Nv=list(N), M=M, Cd=Cd, CK=[C, K], sup=[list(v) for v in sup])
    cfg['S'] = dict(arr(S), sh=list(N + (1, C * K) if Cd == 1 else N + (C, K)))
    cfg['Z'] = zarr(it, arr, Z)
    cfg['W'] = arr(np.ones((1,) * n + (1, 1)), 4)
    it.xsh = N + (Cd, 1, M)
    it.b0, it.b1 = N + (Cd, K if Cd > 1 else C * K, 1), it.xsh
    it.args = [Z, S, dsz]
    o['ZeroMean'] = c['zm']
    o['LinSolveCheck'] = True
    if cls.endswith('CG'):
        o['CG'] = {'MaxIter': 3000,
                   'StopTol': 1e-6 if dt.itemsize == 4 else 1e-11}
    if cls.endswith('Consensus'):
        o.pop('ReturnX', None)
    if 'Mask' in cls:
        W = np.ones((1,) * n, dtype=dt)
        wsh = (1,) * n + (1, 1)
        if c['mk'] == 'n':
            W = take(c['W'], N, dt) / 4
            wsh = N + (1, 1)
        elif c['mk'] != 'none':
            wsh = N + (C, K)
            if c['tr'] and C > 1 and kx:
                wsh = N + ((C, 1) if c['rx'] else (1, K))
            ish = wsh if C > 1 else N + (K,)
            if not kx:
                ish = Ssh
            W = take(c['W'], ish, dt) / 4
            if c['mk'] == 'bin':
                W = (W > 0.5).astype(dt)
        it.args = [Z, S, W, dsz]
        cfg['W'] = dict(arr(W, 4), sh=list(wsh))
    it.rec = not cls.endswith('Consensus')


def zarr(it, arr, Z):
    """Coefficient maps with the channels as further signals."""
    n = len(it.N)
    return dict(arr(Z), sh=list(it.N) + [1, int(np.prod(Z.shape[n:n + 2])),
                                         it.M])


def make_var(c, it, cfg, o, fx, arr):
    """Variants of convolutional sparse coding."""
    import importlib
    cls = c['cls']
    dt = it.dt
    pd = cls in PD
    lam, mu = c['lm'] / 16.0, c['mu'] / 16.0
    it.mod = importlib.import_module(
        'sporco.admm.' + ('pdcsc' if pd else 'cbpdntv' if cls in CBTV
                          else 'cbpdn'))
    it.conv = True
    N, L, M, C, K, Cd, Dsh, Ssh, dk = conv_shapes(c, cd_ok=not pd)
    n = len(N)
    Cx = 1 if Cd > 1 else C
    if pd:
        # the channel axis of the signal is explicit
        dk = 1 if K > 1 else 0
        Ssh = N + (C,) + ((K,) if K > 1 else ())
        Cx = c['nb'] if C > 1 else 1 + c['nb'] % 2
        B = take(c['Bm'], (C, Cx), dt)
        it.B2 = take(c['Bm'][3:], (C, Cx), dt)
        cfg['B'] = arr(B)
    elif cls == 'MultiDictConvBPDN':
        # dictionaries of one channel without channel axis, or of several
        nd = c['nb'] if c['cdm'] else 2
        mc = not c['cdm']
        chn = [1 + (c['nd'] + b) % 2 for b in range(nd)] if mc else [1] * nd
        C = Cd = sum(chn)
        Cx = 1
        N, L, M = N, L, min(M, 2)
        dk = None if c['dk'] < 0 or K > 1 else 0
        Ssh = N + (C,) + ((K,) if K > 1 else ())
        Dsh = L + (C, M)
    D = take(c['D'], Dsh, dt, c['lay'])
    crop = cls == 'MultiDictConvBPDN' and c['tr'] and L[0] > 1
    if crop:
        D[(-1,) + (slice(None),) * (n - 1) + (slice(chn[0], None),)] = 0
    S = take(c['S'], Ssh, dt, c['lay'])
    it.D2 = take(c['D2'], L + (Cd, 1, M), dt)
    it.kw = {'dimN': n}
    if dk is not None:
        it.kw['dimK'] = dk
    cfg['dk'] = -1 if dk is None else dk
    cfg['W'] = arr(np.ones((1,) * (n + 3)), 4)
    it.xsh = it.ny = N + (Cx, K, M)
    it.b0, it.b1 = N + (C, K, 1), it.xsh
    cfg['S'] = arr(S)
    cfg['D'] = arr(D)
    Mw = M
    if cls == 'AddMaskSim':
        Mw = M + Cd
        imp = np.zeros(L + ((Cd,) if Cd > 1 else ()) + (Cd,), dtype=dt)
        if Cd > 1:
            for j in range(Cd):
                imp[(0,) * n + (j, j)] = 1
        else:
            imp[(0,) * (n + 1)] = 1
        it.imp = imp
        cfg['D'] = arr(np.concatenate((D, imp), axis=-1))
        if c['mk'] == 'n':
            W = take([w > 2 for w in c['W']], N, dt)
        else:
            W = take([w > 2 for w in c['W']], Ssh, dt)
        cfg['W'] = arr(W)
        if c['mk'] == 'bin':
            W = W.astype(bool)
    wfull = N + (Cx, K, Mw)
    if c['wk'] != 'none' and cls != 'ConvProdDictL1L1GrdJoint':
        w = {'s': c['w'][0] / 4.0, 'full': take(c['w'], wfull, dt) / 4,
             'm': take(c['w'], (1,) * (n + 2) + (Mw,), dt) / 4}[c['wk']]
        o['L1Weight'] = w
        cfg['wl1'] = arr(np.asarray(w), 4)
    o['LinSolveCheck'] = True
    o['HighMemSolve'] = c['hm']
    if cls in CBTV:
        cfg['aux'] = c['gy']
        it.args = [D, S, lam, mu]
        if c['wgk'] == 'm':
            w = take([v if v else 2 for v in c['wg']] if c['nd'] else c['wg'],
                     (M,), dt)
            o['TVWeight'] = w
            cfg['wg'] = arr(w, 1)
        elif c['w2k'] == 'm':
            o['TVWeight'] = float(c['wg'][0])
            cfg['wg'] = arr(np.array(c['wg'][:1]), 1)
        return
    o['NonNegCoef'] = c['nn']
    o['NoBndryCross'] = c['nbc']
    cfg['nbc'] = c['nbc']
    if pd:
        it.args = [D, B, S, lam] + ([] if cls == PD[0] else [mu])
        if cls in PD[2:]:
            if c['wgk'] == 'm':
                w = take(c['wg'], (M,), dt)
                o['GradWeight'] = w
                cfg['wg'] = arr(w, 1)
            if cls == PD[2] and c['mk'] != 'none':
                W = take(c['W'], N if c['mk'] == 'n' else N + (C, K, 1), dt)
                W = (W > 2).astype(dt) if c['mk'] == 'bin' else W / 4
                it.kw['W'] = W
                cfg['W'] = arr(W, 4)
            if cls == PD[3] and c['w2k'] == 'm':
                w = take(c['w2'], (M,), dt) / 4
                o['L21Weight'] = w
                cfg['wt2'] = arr(w, 4)
    else:
        if cls == 'AddMaskSim':
            it.args = [D, S, W, lam]
        else:
            it.chn = chn
            ds, ss = [], []
            b0 = 0
            for b in chn:
                d, t = D[..., b0:b0 + b, :], S[(slice(None),) * n +
                                               (slice(b0, b0 + b),)]
                if b0 > 0 and crop:
                    d = d[:-1]
                if not mc:
                    d = d[..., 0, :]
                    t = t[(slice(None),) * n + (0,)]
                ds.append(d)
                ss.append(t)
                b0 += b
            it.args = [ds, ss, lam]
        it.inner = it.mod.ConvBPDN


def make_img(c, it, cfg, o, fx, arr):
    """Total variation, spline, robust PCA and plug and play classes."""
    import importlib
    cls = c['cls']
    dt = it.dt
    lam = c['lm'] / 16.0
    nm = {'TVL1Denoise': 'tvl1', 'TVL2Denoise': 'tvl2', 'TVL1Deconv': 'tvl1',
          'TVL2Deconv': 'tvl2', 'SplineL1': 'spline', 'RobustPCA': 'rpca',
          'PPP': 'ppp', 'PPPConsensus': 'ppp'}[cls]
    it.mod = importlib.import_module('sporco.admm.' + nm)
    nd = c['tnd']
    sh = tuple(c['tsh'][:nd])
    if cls == 'RobustPCA':
        sh = (2, c['tsh'][0])
    S = take(c['S'], sh, dt, c['lay'])
    if cls == 'RobustPCA':
        S = np.clip(S, -4, 4)
    it.xsh = it.ny = sh
    # a complex image is a real array with a final axis of two components
    it.cplx = cls in TV and c['im'] and np.prod(sh) <= 24
    cfg['im'] = it.cplx
    if it.cplx:
        S = ctake(c['S'], sh, dt, c['lay'])
        dt = it.dt = S.dtype
        cfg['S'] = arr(ri(S))
    else:
        cfg['S'] = arr(S)
    one = (1,) if it.cplx else ()
    rdt = np.dtype(dt.char.lower())

    def warr(w):
        w = np.asarray(1.0 if w is None else w)
        return arr(w.reshape(w.shape + (one if w.ndim else ())), 4)
    o.pop('ReturnX', None)
    o.pop('AuxVarObj', None)
    o['fEvalX'], o['gEvalY'] = c['fx'], c['gy']
    cfg['fx'], cfg['gy'] = c['fx'], c['gy']
    if cls in TV or cls == 'SplineL1':
        del o['fEvalX']
        cfg['aux'] = c['gy']
        full = tuple(range(nd))
        opts = [full, full, full[::-1], full[:1], full[-1:],
                full[-2:] if nd > 1 else full]
        ax = opts[c['axk'] - 1]
        rest = [d for d in full if d not in ax]
        cax = None
        if rest and c['cax'] and cls in TV:
            cax = rest[-1]
        cfg['axes'] = [a + 1 for a in ax]
        cfg['cax'] = 0 if cax is None else cax + 1
        it.kw = {'axes': ax}
        if cls in TV:
            it.kw['caxis'] = cax
            wsh = tuple(1 if d == cax else n for d, n in enumerate(sh))
            w = {'none': None, 's': c['w'][0] / 4.0,
                 'full': take(c['w'], wsh, rdt) / 4}[c['tw']]
            cfg['wtv'] = warr(w)
            if w is not None:
                o['TVWeight'] = w
        w = None
        if cls != 'TVL2Deconv':
            pool = [v if v else 3 for v in c['w'][20:]]
            w = {'none': None, 's': pool[0] / 4.0,
                 'full': take(pool, sh, rdt) / 4}[c['dw']]
            if w is not None:
                o['DFidWeight'] = w
        cfg['wdf'] = warr(w)
        it.args = [S, lam]
        if cls.endswith('Denoise'):
            o['MaxGSIter'] = 1500
            o['GSTol'] = 3e-6 if rdt.itemsize == 4 else 1e-9
        else:
            o['LinSolveCheck'] = True
        if cls.endswith('Deconv'):
            ash = tuple(min(c['ash'][d], sh[d]) if d in ax else 1
                        for d in range(nd))
            A = take(c['A'], ash, rdt)
            if A.sum() == 0:
                A.ravel()[0] += 1
            cfg['A'] = arr(A.reshape(ash + one))
            it.args = [A, S, lam]
    elif cls == 'RobustPCA':
        it.args = [S, lam]
    else:
        o.pop('fEvalX', None)
        o.pop('gEvalY', None)
        o.pop('AuxVarObj', None)
        o['DataType'] = dt
        n = 1 + c['nb'] % 3
        pts = [take(c['S'][7 * i:], sh, dt) for i in range(n)]
        cfg['pts'] = [arr(t) for t in pts]
        cfg['mus'] = [1] * n

        def proxg(V, rho):
            return np.sign(V) * np.maximum(0, np.abs(V) - lam / rho)
        if cls == 'PPP':
            o['ReturnX'] = c['rx']
            it.args = [sh, lambda X: 0.5 * np.sum((X - S)**2),
                       lambda V, rho: (S + rho * V) / (1 + rho), proxg]
        else:
            it.ysh = sh
            it.xsh = sh + (n,)
            it.args = [sh, [lambda V, rho, t=t: (t + rho * V) / (1 + rho)
                            for t in pts], proxg]
            if not c['nomu']:
                cfg['mus'] = [int(v) for v in c['mus'][:n]]
                it.kw = {'mu': np.array(cfg['mus'], dtype=dt)}
    it.retx = cls in TV or cls in ('SplineL1', 'RobustPCA') or \
        (cls == 'PPP' and c['rx'])


def flat(it, s, Y):
    """Flattened auxiliary variable in the order of the problem."""
    if it.sep:
        return np.concatenate((np.asarray(s.block_sep0(Y)).ravel(),
                               np.asarray(s.block_sep1(Y)).ravel()))
    if getattr(it, 'cplx', False):
        return np.moveaxis(ri(Y), -1, -2).ravel()
    return np.asarray(Y).ravel()


def ri(a):
    """Real and imaginary parts along a new final axis."""
    return np.stack((np.real(a), np.imag(a)), -1)


def ctake(pool, shape, dt, lay='C'):
    cdt = 'c8' if dt.char in 'fF' else 'c16'
    return (take(pool, shape, 'f8', lay) + 1j *
            take(pool[::-1], shape, 'f8', lay)).astype(cdt)


def flat1(it, s, Y, Y1):
    v = flat(it, s, Y)
    return v if Y1 is None else np.concatenate((v, np.asarray(Y1).ravel()))


def vec(fx, a):
    a = np.asarray(a)
    if np.iscomplexobj(a):
        a = ri(a)
    return [fx(v, 4096) for v in a.ravel().tolist()]


def emit_iters(rec, it, s, fx, mag, lo, k0):
    """Write the events of the iterations recorded since index lo."""
    rows = s.getitstat()
    its = s._rec_
    nrow = len(rows.Iter)
    for i in range(lo, len(its)):
        r = its[i]
        j = i - k0
        st = {}
        for f in rows._fields:
            v = getattr(rows, f)[j]
            if f in ('Iter', 'Time') or f.startswith(('Eps', 'Primal',
                                                      'Dual', 'XSlv', 'GS')):
                continue
            st[f] = fx(v, 1024)
        xr = rows.XSlvRelRes[j] if 'XSlvRelRes' in rows._fields else None
        # the relative residual is only meaningful for a solution away from
        # zero (of the sum over the blocks for the consensus classes)
        xs = r['X'].sum(axis=-1) if it.cfg['cls'].endswith('Consensus') \
            else r['X']
        if np.max(np.abs(xs)) < 1e-2:
            xr = None
        rec.ev('iter', k=i + 1, Yp=vec(fx, flat1(it, s, r['Yp'], r.get('Yp1'))),
               Up=vec(fx, flat1(it, s, r['Up'], r.get('Up1'))), rho=fx(r['rho'], 256),
               X=vec(fx, r['X']), Y=vec(fx, flat1(it, s, r['Y'], r.get('Y1'))),
               U=vec(fx, flat1(it, s, r['U'], r.get('U1'))), st=st,
               r=fx(rows.PrimalRsdl[j], 4096), s=fx(rows.DualRsdl[j], 4096),
               xrrs=-30 if xr is None else
               (mag(xr) - (3 if it.dt.char in 'fF' else -2)))
