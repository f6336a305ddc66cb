"""Shared parts of the checks of concrete ADMM solver classes."""
import json
import os

MC = {'module': 'SolversMC', 'workers': 6, 'timeout': 800, 'cfg':
      'SPECIFICATION Spec\nCONSTANT KMax = %d\nCONSTANT ClassSet = {%s}\n'
      'INVARIANTS XAccepted XDisplaced YUAccepted Optimal Feasible1 '
      'Consensus\nCHECK_DEADLOCK FALSE\n'}


def model(tier, *classes):
    return [dict(MC, cfg=MC['cfg'] % (25 if tier == 'quick' else 60,
                                      ', '.join('"%s"' % c for c in
                                                classes)))]


def generator(classes, nquick, nthorough, tier, seed):
    n = int(os.environ.get('VERIF_N') or
            (nquick if tier == 'quick' else nthorough))
    if os.environ.get('VERIF_CLS'):
        classes = os.environ['VERIF_CLS'].split(',')
    return [{'module': 'SolversGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nCONSTANT Classes = {%s}\nINVARIANT Emit\n'
             'CHECK_DEADLOCK FALSE\n' % ', '.join('"%s"' % c for c in
                                                  classes),
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 31 + 6))}]


def harness(rec):
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    import sporco.fft as ft
    from vlib.core import fx, arr, mag
    from checks import solverlib as sl
    ft.pyfftw_planner_effort = 'FFTW_ESTIMATE'
    ft.pyfftw_threads = 1
    obs = {}
    started = []

    def run(key, c):
        it = sl.make(c, fx, arr)
        wrap = getattr(it, 'inner', None)
        base = wrap or it.C
        Obs = obs.setdefault(base, sl.observe(base))
        cfg = dict(it.cfg)

        def build(extra=()):
            o = dict(it.o)
            o.update(extra)
            if wrap:
                it.w = it.C(Obs, *it.args, opt=base.Options(o), **it.kw)
                return it.w.cbpdn
            it.w = Obs(*it.args, opt=it.C.Options(o), **it.kw)
            return it.w
        s = None
        y0 = u0 = None
        ex = {}
        cfg['y0'] = cfg['u0'] = False
        cfg['dual'] = False
        if c['hy0']:
            s = build()
            tk = sl.ctake if it.dt.kind == 'c' else sl.take
            y0 = tk(c['y0'], s.var_y().shape, it.dt)
            if c['nn']:
                y0 = abs(y0).astype(it.dt)
            ex['Y0'] = y0.copy()
            cfg['y0'] = True
            cfg['dual'] = (c['cls'] in ('BPDN', 'ElasticNet', 'ConvBPDN',
                           'ConvElasticNet', 'ConvBPDNGradReg',
                           'ConvBPDNMaskDcpl') and c['wk'] == 'none' and
                           not c['nbc'] and not c['norho'])
            if c['hu0']:
                u0 = tk(c['u0'], s.var_u().shape, it.dt) / 2
                ex['U0'] = u0.copy()
                cfg['u0'] = True
        rec.trace(key, judge='SolversTrace', shards=6, cfg=cfg)
        started.append(key)
        if c['norho']:
            # default options
            (it.C(base, *it.args, **it.kw) if wrap else
             it.C(*it.args, **it.kw))
        s = build(ex)
        z = []
        if c['norho']:
            # the run starts from the default penalty parameter
            s.rho = s.dtype.type(c['rho'] / 256.0)
            s.rhochange()
        a1, b1 = getattr(s, 'Y1', None), getattr(s, 'U1', None)
        if a1 is not None:
            a1, b1 = a1.copy(), b1.copy()
        rec.ev('start', Y=sl.vec(fx, sl.flat1(it, s, s.var_y(), a1)),
               U=sl.vec(fx, sl.flat1(it, s, s.var_u(), b1)),
               Y0=z if y0 is None else sl.vec(fx, sl.flat1(it, s, y0, a1)),
               U0=z if u0 is None else sl.vec(fx, sl.flat1(it, s, u0, b1)),
               rho=fx(s.rho, 256))

        def finish(x, lo):
            sl.emit_iters(rec, it, s, fx, mag, lo, 0)
            v = c['rv'] if it.two else ('X' if c['rx'] else 'Y')
            if c['cls'].endswith('Consensus') and c['cls'] in sl.DU:
                v = 'Y'
            if c['cls'] in sl.IMG:
                v = 'X' if it.retx else 'Y'
            if c['cls'] == 'RobustPCA':
                rec.ev('ret', var='Y', v=sl.vec(fx, x[1]), lo=1, hi=0,
                       sh=list(np.shape(x[1])), xsh=list(it.xsh))
                x = x[0]
            ny0 = int(np.size(s.block_sep0(s.var_y()))) if it.two else 0
            rec.ev('ret', var=v if not it.two or v == 'X' else 'B',
                   v=sl.vec(fx, x), lo=1 if v == 'Y0' else ny0 + 1,
                   hi=ny0 if v == 'Y0' else int(np.size(s.var_y())),
                   sh=list(np.shape(x)), xsh=list(it.b0 if v == 'Y0' else
                                                  it.b1 if v == 'Y1'
                                                  else it.ysh if
                                                  hasattr(it, 'ysh')
                                                  else it.xsh))
            if c['cls'] in sl.DU[1:]:
                d = s.getdict()
                rec.ev('dict', v=sl.vec(fx, d), sh=list(np.shape(d)))
                if it.rec:
                    r = s.reconstruct()
                    rec.ev('recon', given=False, x=[], v=sl.vec(fx, r))
                    X = sl.take(c['x'], it.xsh, it.dt)
                    r = s.reconstruct(X)
                    rec.ev('recon', given=True, x=sl.vec(fx, X),
                           v=sl.vec(fx, r))
            if c['cls'] == 'MultiDictConvBPDN':
                X = sl.take(c['x'], it.xsh, it.dt)
                r0, r1 = [np.concatenate([it.w.reconstruct(b, *a) for b in
                                          range(len(it.chn))],
                                         axis=it.w.cbpdn.cri.axisC)
                          for a in ((), (X,))]
                rec.ev('recon', given=True, x=sl.vec(fx, x),
                       v=sl.vec(fx, r0))
                rec.ev('recon', given=True, x=sl.vec(fx, X),
                       v=sl.vec(fx, r1))
            elif it.conv:
                r = it.w.reconstruct()
                rec.ev('recon', given=False, x=[], v=sl.vec(fx, r))
                X = sl.take(c['x'], it.xsh, it.dt)
                r = it.w.reconstruct(X)
                rec.ev('recon', given=True, x=sl.vec(fx, X), v=sl.vec(fx, r))
        x = it.w.solve()
        finish(x, 0)
        if c['cls'] == 'MultiDictConvBPDN':
            return
        if c['sd'] and c['cls'] not in sl.IMG:
            lo = len(s._rec_)
            if c['cls'] == 'CnstrMOD':
                s.setcoef(it.D2)
                rec.ev('setdict', D=arr(it.D2))
            elif c['cls'] in sl.DU:
                s.setcoef(it.D2)
                rec.ev('setcoef', Z=sl.zarr(it, arr, it.D2))
            elif hasattr(it, 'B2') and c['tr']:
                a = {'B': it.B2} if c['nomu'] else {'D': it.D2, 'B': it.B2}
                s.setdict(**a)
                Dn = it.D2 if 'D' in a else it.args[0]
                rec.ev('setdict', D=arr(Dn.reshape(it.args[0].shape)),
                       B=arr(it.B2))
            else:
                Dn = it.D2
                if it.conv:
                    Dn = it.D2.reshape(it.args[0].shape)
                if c['cls'] == 'AddMaskSim':
                    it.w.setdict(it.D2)
                    Dn = np.concatenate((Dn, it.imp), axis=-1)
                else:
                    s.setdict(it.D2)
                b = {'B': cfg['B']} if 'B' in cfg else {}
                rec.ev('setdict', D=arr(Dn), **b)
            x = it.w.solve()
            finish(x, lo)

    with open(os.environ['VERIF_SCN']) as f:
        scn = [x['s'] for x in json.load(f)]
    for i, c in enumerate(scn):
        key = '%s%d' % (c['cls'], i)
        try:
            run(key, c)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if 'sporco' not in tb[-1].filename and not any(
                    '/sporco/' in f.filename for f in tb):
                raise
            if key not in started[-1:]:
                rec.trace(key, judge='SolversTrace', shards=6, cfg={'cls': 'none', 'of': c})
            rec.ev('exc', t='%s: %r at %s:%d' % (
                c['cls'], e, tb[-1].filename, tb[-1].lineno))
