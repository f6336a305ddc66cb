"""Solver configurations for the isolation check: for every class, how to make
the inputs, the options and the object, and what to observe."""
import numpy as np


class Cfg(object):
    """arrays: the arrays given to the constructor; optf(): a new options
    object; ctor(opt): a new solver; dicts: alternative dictionaries for the
    setdict operation; step(obj): one solve call."""

    def __init__(self, ctor, arrays, optf, dicts=(), step=None, obs=()):
        self.ctor = ctor
        self.arrays = arrays
        self.optf = optf
        self.dicts = list(dicts)
        self.step = step
        self.obs = obs
        self.opt = optf() if optf is not None else None


def _ndx(v):
    return (6, 5) if v % 2 == 0 else (5, 7)


def build(name, v):
    import sporco.admm.bpdn as abpdn
    import sporco.admm.cbpdn as acb
    import sporco.admm.cbpdnin as acin
    import sporco.admm.cbpdntv as actv
    import sporco.admm.ccmod as accm
    import sporco.admm.ccmodmd as accmm
    import sporco.admm.cmod as acm
    import sporco.admm.pdcsc as apd
    import sporco.admm.rpca as arp
    import sporco.admm.spline as asp
    import sporco.admm.tvl1 as at1
    import sporco.admm.tvl2 as at2
    import sporco.admm.ppp as appp
    import sporco.pgm.bpdn as pb
    import sporco.pgm.cbpdn as pcb
    import sporco.pgm.ccmod as pccm
    import sporco.pgm.cmod as pcm
    import sporco.pgm.ppp as pppp
    import sporco.pgm.backtrack as pbt
    import sporco.pgm.momentum as pmo
    import sporco.pgm.stepsize as pss
    import sporco.dictlrn.bpdndl as dbp
    import sporco.dictlrn.wbpdndl as dwb
    import sporco.dictlrn.cbpdndl as dcb
    import sporco.dictlrn.cbpdndlmd as dcm
    import sporco.dictlrn.onlinecdl as donl
    r = np.random.RandomState(1000 + 17 * v)
    dt = np.float32 if v == 3 else np.float64
    A = lambda *s: np.round(r.uniform(-2, 2, s) * 8).astype(dt) / 8
    P = lambda *s: np.abs(A(*s)) + dt(0.25)
    B = lambda *s: (r.uniform(0, 1, s) > 0.3).astype(dt)
    nit = 1 + v % 3
    N = _ndx(v)
    K, M = (1, 2, 3, 2)[v], (3, 2, 4, 3)[v]
    base = {'Verbose': False, 'MaxMainIter': nit, 'RelStopTol': 1e-6}
    if v == 1:
        base['StatusHeader'] = False
    adm = dict(base, AutoRho={'Enabled': v % 2 == 1, 'Period': 1},
               RelaxParam=1.0 + 0.25 * v)
    rho = dict(adm, rho=1.0 + v)

    def mat(cls, *rest, **kw):
        D, S = A(6, 8), A(6, K)
        o = kw.get('o', rho)
        rest = tuple(rest)
        return Cfg(lambda opt: cls(D, S, *rest, opt=opt),
                   [D, S] + [x for x in rest if isinstance(x, np.ndarray)],
                   lambda: cls.Options(o), [A(6, 8), A(6, 8)])

    def conv(cls, *rest, **kw):
        D = A(3, 2, M)
        S = A(*(N + (K,))) if K > 1 else A(*N)
        ext = kw.get('ext', [])
        k2 = {k: x for k, x in kw.items() if k not in ('ext', 'o', 'nod')}
        o = kw.get('o', rho)
        return Cfg(lambda opt: cls(D, S, *rest, opt=opt, dimK=1 if K > 1
                                   else 0, **k2),
                   [D, S] + list(ext) + [x for x in rest if
                                         isinstance(x, np.ndarray)],
                   lambda: cls.Options(o),
                   [] if kw.get('nod') else [A(3, 2, 1, 1, M),
                                               A(3, 2, 1, 1, M)])
    W = B(*(N + ((K,) if K > 1 else ())))
    pg = dict(base, L=50.0 + v)
    if v == 1:
        pg['Momentum'] = pmo.MomentumLinear()
    if v == 2:
        pg['Backtrack'] = pbt.BacktrackStandard()
        pg['L'] = 2.0
    pgr = dict(base, L=2.0, Backtrack=pbt.BacktrackRobust())
    pgb = dict(base, L=20.0, StepSizePolicy=pss.StepSizePolicyBB())
    lm = 0.25
    if name == 'BPDN':
        return mat(abpdn.BPDN, lm)
    if name == 'BPDNnone':
        return mat(abpdn.BPDN)
    if name == 'BPDNJoint':
        return mat(abpdn.BPDNJoint, lm, 0.1)
    if name == 'ElasticNet':
        return mat(abpdn.ElasticNet, lm, 0.1)
    if name == 'BPDNProjL1':
        return mat(abpdn.BPDNProjL1, 1.5)
    if name == 'MinL1InL2Ball':
        return mat(abpdn.MinL1InL2Ball, 0.5)
    if name == 'CnstrMOD':
        Z, S = A(8, 9), A(6, 9)
        return Cfg(lambda opt: acm.CnstrMOD(Z, S, (6, 8), opt=opt), [Z, S],
                   lambda: acm.CnstrMOD.Options(rho))
    if name == 'ConvBPDN':
        return conv(acb.ConvBPDN, lm)
    if name == 'ConvBPDNw':
        w = P(*(N + (1, 1, M)))
        return conv(acb.ConvBPDN, lm, ext=[w], o=dict(
            rho, L1Weight=w, AuxVarObj=True, HighMemSolve=True))
    if name == 'ConvBPDNnone':
        return conv(acb.ConvBPDN)
    if name == 'ConvBPDNJoint':
        return conv(acb.ConvBPDNJoint, lm, 0.1)
    if name == 'ConvElasticNet':
        return conv(acb.ConvElasticNet, lm, 0.1)
    if name == 'ConvBPDNGradReg':
        return conv(acb.ConvBPDNGradReg, lm, 0.1)
    if name == 'ConvBPDNProjL1':
        return conv(acb.ConvBPDNProjL1, 2.0)
    if name == 'ConvMinL1InL2Ball':
        return conv(acb.ConvMinL1InL2Ball, 0.5)
    if name == 'ConvBPDNMaskDcpl':
        return conv(acb.ConvBPDNMaskDcpl, lm, W)
    if name == 'ConvL1L1Grd':
        return conv(acb.ConvL1L1Grd, lm, 0.1, W)
    if name == 'AddMaskSim':
        D, S = A(3, 2, M), A(*N)
        W0 = B(*N)
        return Cfg(lambda opt: acb.AddMaskSim(acb.ConvBPDN, D, S, W0, lm,
                                              opt=opt),
                   [D, S, W0], lambda: acb.ConvBPDN.Options(rho))
    if name == 'MultiDictConvBPDN':
        D, S = [A(3, 2, M), A(2, 3, M)], [A(*N), A(*N)]
        return Cfg(lambda opt: acb.MultiDictConvBPDN(acb.ConvBPDN, D, S, lm,
                                                     opt=opt, dimK=0),
                   D + S, lambda: acb.ConvBPDN.Options(rho))
    if name == 'ConvBPDNInhib':
        D, S = A(3, 2, M), A(*N)
        Wg = B(2, M)
        return Cfg(lambda opt: acin.ConvBPDNInhib(
            D, S, Wg, 3, ('hann',) if False else None, lm, 0.1, 0.1, opt=opt,
            dimK=0), [D, S, Wg], lambda: acin.ConvBPDNInhib.Options(rho))
    if name in ('ConvBPDNScalarTV', 'ConvBPDNVectorTV', 'ConvBPDNRecTV'):
        return conv(getattr(actv, name), lm, 0.1)
    if name in ('ConvProdDictBPDN', 'ConvProdDictBPDNJoint',
                'ConvProdDictL1L1Grd', 'ConvProdDictL1L1GrdJoint'):
        D, Bm, S = A(3, 2, M), A(3, 2), A(*(N + (3,)))
        cls = getattr(apd, name)
        a = (lm,) if name == 'ConvProdDictBPDN' else (lm, 0.1)
        return Cfg(lambda opt: cls(D, Bm, S, *a, opt=opt, dimK=0),
                   [D, Bm, S], lambda: cls.Options(rho))
    if name in ('ConvCnstrMOD_IterSM', 'ConvCnstrMOD_CG',
                'ConvCnstrMOD_Consensus'):
        Z, S = A(*(N + (1, K, M))), A(*(N + (K,)))
        cls = getattr(accm, name)
        return Cfg(lambda opt: cls(Z, S, (3, 2, M), opt=opt), [Z, S],
                   lambda: cls.Options(rho))
    if name.startswith('ConvCnstrMODMaskDcpl'):
        Z, S = A(*(N + (1, K, M))), A(*(N + (K,)))
        W1 = B(*(N + (1, K, 1)))
        cls = getattr(accmm, name)
        return Cfg(lambda opt: cls(Z, S, W1, (3, 2, M), opt=opt, dimK=1),
                   [Z, S, W1], lambda: cls.Options(rho))
    if name in ('TVL1Denoise', 'TVL2Denoise', 'SplineL1', 'RobustPCA'):
        S = A(*N)
        cls = {'TVL1Denoise': at1.TVL1Denoise, 'TVL2Denoise': at2.TVL2Denoise,
               'SplineL1': asp.SplineL1, 'RobustPCA': arp.RobustPCA}[name]
        a = () if (name == 'RobustPCA' and v == 0) else (0.3,)
        return Cfg(lambda opt: cls(S, *a, opt=opt), [S],
                   lambda: cls.Options(rho))
    if name in ('TVL1Deconv', 'TVL2Deconv'):
        S, k = A(*N), P(2, 2)
        cls = {'TVL1Deconv': at1.TVL1Deconv, 'TVL2Deconv': at2.TVL2Deconv}[
            name]
        return Cfg(lambda opt: cls(k, S, 0.3, opt=opt), [S, k],
                   lambda: cls.Options(rho))
    if name == 'admmPPP':
        S = A(*N)
        return Cfg(lambda opt: appp.PPP(
            N, lambda x: 0.5 * np.sum((x - S)**2),
            lambda x, rh: (S + rh * x) / (1 + rh),
            lambda x, rh: np.clip(x, -1, 1), opt=opt), [S],
            lambda: appp.PPP.Options(rho))
    if name == 'admmPPPConsensus':
        S = A(*N)
        T = A(*N)
        return Cfg(lambda opt: appp.PPPConsensus(
            N, (lambda x, rh: (S + rh * x) / (1 + rh),
                lambda x, rh: (T + rh * x) / (1 + rh)), opt=opt), [S, T],
            lambda: appp.PPPConsensus.Options(dict(base, rho=1.0 + v)))
    if name == 'pgmPPP':
        S = A(*N)
        return Cfg(lambda opt: pppp.PPP(
            N, lambda x: 0.5 * np.sum((x - S)**2), lambda x: x - S,
            lambda x, L: np.clip(x, -1, 1), opt=opt), [S],
            lambda: pppp.PPP.Options(dict(base, L=2.0 + v)))
    if name == 'pgmBPDN':
        return mat(pb.BPDN, lm, o=pg)
    if name == 'pgmBPDNrobust':
        return mat(pb.BPDN, lm, o=pgr)
    if name == 'pgmBPDNbb':
        return mat(pb.BPDN, lm, o=pgb)
    if name == 'pgmWeightedBPDN':
        return mat(pb.WeightedBPDN, lm, P(6, K), o=pg)
    if name == 'pgmConvBPDN':
        return conv(pcb.ConvBPDN, lm, o=pg)
    if name == 'pgmConvBPDNrobust':
        return conv(pcb.ConvBPDN, lm, o=pgr)
    if name == 'pgmConvBPDNbb':
        return conv(pcb.ConvBPDN, lm, o=pgb)
    if name == 'pgmConvBPDNMask':
        return conv(pcb.ConvBPDNMask, lm, W, o=pg)
    if name == 'pgmConvCnstrMOD':
        Z, S = A(*(N + (1, K, M))), A(*(N + (K,)))
        return Cfg(lambda opt: pccm.ConvCnstrMOD(Z, S, (3, 2, M), opt=opt),
                   [Z, S], lambda: pccm.ConvCnstrMOD.Options(pg))
    if name == 'pgmConvCnstrMODMask':
        Z, S = A(*(N + (1, K, M))), A(*(N + (K,)))
        W1 = B(*(N + (1, K, 1)))
        return Cfg(lambda opt: pccm.ConvCnstrMODMask(
            Z, S, W1, (3, 2, M), opt=opt, dimK=1), [Z, S, W1],
            lambda: pccm.ConvCnstrMODMask.Options(pg))
    if name == 'pgmCnstrMOD':
        Z, S = A(8, 9), A(6, 9)
        return Cfg(lambda opt: pcm.CnstrMOD(Z, S, (6, 8), opt=opt), [Z, S],
                   lambda: pcm.CnstrMOD.Options(pg))
    if name == 'pgmWeightedCnstrMOD':
        Z, S, Wm = A(8, 9), A(6, 9), P(6, 9)
        return Cfg(lambda opt: pcm.WeightedCnstrMOD(Z, S, Wm, (6, 8),
                                                    opt=opt),
                   [Z, S, Wm], lambda: pcm.WeightedCnstrMOD.Options(pg))
    # given initial values
    if name == 'BPDNy0':
        y, u = A(8, K), A(8, K)
        return mat(abpdn.BPDN, lm, o=dict(rho, Y0=y, U0=u))
    if name == 'ConvBPDNy0':
        sh = N + (1, K, M)
        return conv(acb.ConvBPDN, lm, o=dict(rho, Y0=A(*sh), U0=A(*sh)))
    if name == 'pgmBPDNx0':
        return mat(pb.BPDN, lm, o=dict(pg, X0=A(8, K)))
    if name == 'pgmConvBPDNx0':
        return conv(pcb.ConvBPDN, lm, o=dict(pg, X0=A(*(N + (1, K, M)))))
    if name == 'ConvCnstrMODy0':
        Z, S = A(*(N + (1, K, M))), A(*(N + (K,)))
        sh = N + (1, 1, M)
        o = dict(rho, Y0=A(*sh), U0=A(*sh))
        return Cfg(lambda opt: accm.ConvCnstrMOD_IterSM(
            Z, S, (3, 2, M), opt=opt), [Z, S],
            lambda: accm.ConvCnstrMOD_IterSM.Options(o))
    if name == 'pgmConvCnstrMODx0':
        Z, S = A(*(N + (1, K, M))), A(*(N + (K,)))
        o = dict(pg, X0=A(*(N + (1, 1, M))))
        return Cfg(lambda opt: pccm.ConvCnstrMOD(Z, S, (3, 2, M), opt=opt),
                   [Z, S], lambda: pccm.ConvCnstrMOD.Options(o))
    if name == 'TVL2w':
        S = A(*N)
        o = dict(rho, TVWeight=P(*N), DFidWeight=P(*N))
        return Cfg(lambda opt: at2.TVL2Denoise(S, 0.3, opt=opt), [S],
                   lambda: at2.TVL2Denoise.Options(o))
    # dictionary learning
    dl = {'Verbose': False, 'MaxMainIter': nit}
    if name == 'BPDNDictLearn':
        D, S = A(6, 8), A(6, 9)
        return Cfg(lambda opt: dbp.BPDNDictLearn(D, S, lm, opt=opt), [D, S],
                   lambda: dbp.BPDNDictLearn.Options(dl))
    if name == 'WeightedBPDNDictLearn':
        D, S, Wm = A(6, 8), A(6, 9), P(6, 9)
        return Cfg(lambda opt: dwb.WeightedBPDNDictLearn(D, S, lm, Wm,
                                                         opt=opt),
                   [D, S, Wm],
                   lambda: dwb.WeightedBPDNDictLearn.Options(dl))
    if name.startswith('CDL'):
        _, xm, dm = name.split('-')
        D, S = A(3, 2, M), A(*(N + (K,)))
        return Cfg(lambda opt: dcb.ConvBPDNDictLearn(
            D, S, lm, opt=opt, xmethod=xm, dmethod=dm), [D, S],
            lambda: dcb.ConvBPDNDictLearn.Options(dl, xmethod=xm,
                                                  dmethod=dm))
    if name.startswith('MDL'):
        _, xm, dm = name.split('-')
        D, S = A(3, 2, M), A(*(N + (K,)))
        W1 = B(*(N + (1, K, 1)))
        return Cfg(lambda opt: dcm.ConvBPDNMaskDictLearn(
            D, S, lm, W1, opt=opt, xmethod=xm, dmethod=dm), [D, S, W1],
            lambda: dcm.ConvBPDNMaskDictLearn.Options(dl, xmethod=xm,
                                                      dmethod=dm))
    if name in ('OnlineConvBPDNDictLearn', 'OnlineConvBPDNMaskDictLearn'):
        D, S = A(3, 2, M), A(*N)
        W1 = B(*N)
        cls = getattr(donl, name)
        a = (W1,) if 'Mask' in name else ()
        return Cfg(lambda opt: cls(D, lm, opt=opt), [D, S, W1],
                   lambda: cls.Options({'Verbose': False, 'CBPDN':
                                        {'MaxMainIter': nit}}),
                   step=lambda b: (b.solve(S, *a, dimK=0),
                                   b.getdict())[1])
    raise ValueError(name)


MATS = ['BPDN', 'BPDNy0', 'pgmBPDNx0', 'ConvBPDNy0', 'pgmConvBPDNx0',
        'ConvCnstrMODy0', 'pgmConvCnstrMODx0', 'TVL2w', 'BPDNnone', 'BPDNJoint', 'ElasticNet', 'BPDNProjL1',
        'MinL1InL2Ball', 'CnstrMOD', 'pgmBPDN', 'pgmBPDNrobust', 'pgmBPDNbb',
        'pgmWeightedBPDN', 'pgmCnstrMOD', 'pgmWeightedCnstrMOD',
        'BPDNDictLearn', 'WeightedBPDNDictLearn', 'RobustPCA']
CONV = ['ConvBPDN', 'ConvBPDNw', 'ConvBPDNnone', 'ConvBPDNJoint',
        'ConvElasticNet',
        'ConvBPDNGradReg', 'ConvBPDNProjL1', 'ConvMinL1InL2Ball',
        'ConvBPDNMaskDcpl', 'ConvL1L1Grd', 'AddMaskSim', 'MultiDictConvBPDN',
        'ConvBPDNInhib', 'ConvBPDNScalarTV', 'ConvBPDNVectorTV',
        'ConvBPDNRecTV', 'ConvProdDictBPDN', 'ConvProdDictBPDNJoint',
        'ConvProdDictL1L1Grd', 'ConvProdDictL1L1GrdJoint',
        'ConvCnstrMOD_IterSM', 'ConvCnstrMOD_CG', 'ConvCnstrMOD_Consensus',
        'ConvCnstrMODMaskDcpl_IterSM', 'ConvCnstrMODMaskDcpl_CG',
        'ConvCnstrMODMaskDcpl_Consensus', 'TVL1Denoise', 'TVL2Denoise',
        'SplineL1', 'TVL1Deconv', 'TVL2Deconv', 'admmPPP',
        'admmPPPConsensus', 'pgmPPP', 'pgmConvBPDN', 'pgmConvBPDNrobust', 'pgmConvBPDNbb',
        'pgmConvBPDNMask', 'pgmConvCnstrMOD', 'pgmConvCnstrMODMask']
DL = ['CDL-admm-ism', 'CDL-admm-cg', 'CDL-admm-cns', 'CDL-admm-pgm',
      'CDL-pgm-pgm', 'CDL-pgm-cns', 'MDL-admm-ism', 'MDL-admm-cg',
      'MDL-admm-cns', 'MDL-admm-pgm', 'MDL-pgm-pgm', 'MDL-pgm-cns',
      'OnlineConvBPDNDictLearn', 'OnlineConvBPDNMaskDictLearn']
NAMES = MATS + CONV + DL
# objects that hold functions or overridden methods
NOPICKLE = {'admmPPP', 'admmPPPConsensus', 'pgmPPP', 'AddMaskSim'}
