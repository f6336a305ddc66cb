"""Recorded runs of the dictionary learning classes."""
import numpy as np
from checks import solverlib as sl
from checks import pgmlib as pl

XCLS = {('conv', 'admm'): 'ConvBPDN', ('conv', 'pgm'): 'pgmConvBPDN',
        ('mask', 'admm'): 'ConvBPDNMaskDcpl',
        ('mask', 'pgm'): 'pgmConvBPDNMask',
        ('bpdn', 'admm'): 'BPDN', ('wbpdn', 'pgm'): 'pgmWeightedBPDN'}
DM = {'ism': '_IterSM', 'cg': '_CG', 'cns': '_Consensus'}
BIG = 12.0


def dcls(kind, dm):
    if kind == 'bpdn':
        return 'CnstrMOD'
    if kind == 'wbpdn':
        return 'pgmWeightedCnstrMOD'
    if dm == 'pgm':
        return 'pgmConvCnstrMOD' + ('Mask' if kind == 'mask' else '')
    return 'ConvCnstrMOD' + ('MaskDcpl' if kind == 'mask' else '') + DM[dm]


class Obj(object):
    pass


def mk(c, fx, arr):
    return (pl.make if c['cls'] in pl.CLS else sl.make)(c, fx, arr)


def make(c, p, fx, arr):
    g = Obj()
    kind = g.kind = p['kind']
    xm, dm = p['xm'], p['dm']
    if kind == 'bpdn':
        xm, dm = 'admm', 'ism'
    elif kind == 'wbpdn':
        xm, dm = 'pgm', 'pgm'
    g.xm, g.dm = xm, dm
    c = dict(c, rx=False, rv='Y1', norho=False, S=p['S'], lm=p['lm'],
             ssp=3 if c['ssp'] == 3 else 0)
    conv = g.conv = kind in ('conv', 'mask')
    if conv:
        N, L, M, C, K, Cd, Dsh, Ssh, dk = sl.conv_shapes(c)
        if dm == 'pgm' and C > 1 and Cd == 1 and c['mk'] != 'none':
            c['mk'] = 'n'
        if c['dk'] < 0:
            c['dk'] = 0
    cd = dict(c, cls=dcls(kind, dm), rho=p['drho'], al=p['dal'], sL=p['dL'],
              nit=p['di'])
    if not conv:
        cd.update(n=c['m'], m=c['n'])
    cx = dict(c, cls=XCLS[kind, xm], al=p['xal'], nit=p['xi'])
    itd = g.d = mk(cd, fx, arr)
    itx = g.x = mk(cx, fx, arr)
    for it, k in ((itd, cd), (itx, cx)):
        it.cls = k['cls']
        it.pgm = it.cls in pl.CLS
        it.cfg['y0'] = it.cfg['u0'] = it.cfg['dual'] = False
        if not conv:
            it.dft = False
    dt = g.dt = itd.dt
    S = g.S = itd.args[1]
    g.kw = {}
    if conv:
        g.kw = dict(itd.kw)
        dsz = itd.args[-1]
        multi = isinstance(dsz[0], tuple)
        sup = itd.cfg['sup']
        mx = tuple(np.max(np.array(sup), axis=0))
        ch = (Cd,) if Cd > 1 else ()
        g.D0 = sl.take(p['D0'], mx + ch + (M,), dt, c['lay'])
        g.dsz = dsz if multi or p['dsz'] else None
        g.dish = mx + (Cd, 1, M)
        g.fish = N + (Cd, 1, M)
        itx.xsh = N + (1 if Cd > 1 else C, K, M)
        itx.cfg['S'] = arr(S)
        itx.cfg['dk'] = 1 if g.kw['dimK'] is None else g.kw['dimK']
        if g.kw['dimK'] is None or (g.kw['dimK'] == 1 and c['tr']):
            del g.kw['dimK']
        itx.cfg['D'] = {'sh': list(g.D0.shape), 'v': [0] * g.D0.size}
        if 'L1Weight' in itx.o and c['wk'] == 'full':
            w = sl.take(c['w'], itx.xsh, dt) / 4
            itx.o['L1Weight'] = w
            itx.cfg['wl1'] = arr(w, 4)
        if kind == 'mask':
            g.W = itd.args[2]
            itx.cfg['W'] = arr(g.W, 4)
        itd.cfg['Z']['v'] = [0] * len(itd.cfg['Z']['v'])
    else:
        n, q, m = c['n'], c['p'], c['m']
        g.D0 = sl.take(p['D0'], (q, n), dt, c['lay'])
        g.dish = g.fish = (q, n)
        itx.cfg['D'] = {'sh': [q, n], 'v': [0] * (q * n)}
        itd.cfg['D'] = {'sh': [n, m], 'v': [0] * (n * m)}
        itx.xsh = (n, m)
        if kind == 'wbpdn':
            g.W = itx.kw.get('W')
    g.x0 = None
    if c['hy0'] and kind in ('conv', 'bpdn'):
        g.x0 = sl.take(c['x'], itx.xsh, dt)
        itx.o['X0' if itx.pgm else 'Y0'] = g.x0
    g.cfg = {'cls': kind, 'x': itx.cfg, 'd': itd.cfg, 'acc': p['acc'],
             'D0': arr(g.D0)}
    g.shards = 6
    return g


def construct(g, p, callback):
    o = {'MaxMainIter': p['no'], 'AccurateDFid': p['acc'],
         'Callback': callback}
    if g.conv:
        o['DictSize'] = g.dsz
        o.update(CBPDN=g.x.o, CCMOD=g.d.o)
        from sporco.dictlrn import cbpdndl, cbpdndlmd
        C = (cbpdndlmd.ConvBPDNMaskDictLearn if g.kind == 'mask' else
             cbpdndl.ConvBPDNDictLearn)
        opt = C.Options(o, xmethod=g.xm, dmethod=g.dm)
        w = [g.W] if g.kind == 'mask' else []
        return C(g.D0, g.S, g.x.cfg['lm'] / 16.0, *w, opt=opt, xmethod=g.xm,
                 dmethod=g.dm, **g.kw)
    o.update(BPDN=g.x.o, CMOD=g.d.o)
    from sporco.dictlrn import bpdndl, wbpdndl
    lam = g.x.cfg['lm'] / 16.0
    if g.kind == 'bpdn':
        return bpdndl.BPDNDictLearn(g.D0, g.S, lam,
                                    bpdndl.BPDNDictLearn.Options(o))
    C = wbpdndl.WeightedBPDNDictLearn
    return C(g.D0, g.S, lam, W=g.W, opt=C.Options(o))


class Tag(object):
    """Events of one of the two solvers."""
    def __init__(self, rec, w):
        self.rec, self.w = rec, w

    def ev(self, e, **kw):
        self.rec.ev('half', w=self.w, sub=e, **kw)


SKIP = ('Iter', 'Time')


def stat(fx, row):
    d = {}
    for f in row._fields:
        v = getattr(row, f)
        if f not in SKIP:
            d[f] = -999 if v is None else fx(v, 1024)
    return d


def emit_pgm(rec, s, fx, lo):
    rows = s.getitstat()
    for i in range(lo, len(s._rec_)):
        r = s._rec_[i]
        st = {f: fx(getattr(rows, f)[i], 1024) for f in rows._fields
              if f in ('ObjFun', 'DFid', 'RegL1', 'Cnstr')}
        rec.ev('pit', k=i + 1, Yp=sl.vec(fx, r['Y']), Y=sl.vec(fx, r['Yn']),
               Xp=sl.vec(fx, r['Xp']), X=sl.vec(fx, r['X']),
               G=sl.vec(fx, r['G']), L=fx(r['L'], 256),
               b=fx(r['b'], 16384), st=st, r=fx(rows.Rsdl[i], 1024))


def x0(g, vec, a):
    return [0] * np.size(a) if g.x0 is None else vec(g.x0)


def size(s, lo):
    m = 0.0
    for r in s._rec_[lo:]:
        for k in ('X', 'Y', 'U', 'Yp', 'Up', 'Y1', 'U1', 'Yn', 'G'):
            if k in r:
                m = max(m, np.max(np.abs(r[k]), initial=0.0))
    return m


def run(rec, key, c, p, fx, arr, mag, started):
    g = make(c, p, fx, arr)

    def vec(a):
        return sl.vec(fx, a)
    state = {'x': 0, 'd': 0, 'bad': False}

    def emit(dl):
        big = max(size(s, state[w]) for w, s in (('x', dl.xstep),
                                                 ('d', dl.dstep)))
        if not big < BIG:
            state['bad'] = True
            return True
        n = {}
        for w, it, s in (('x', g.x, dl.xstep), ('d', g.d, dl.dstep)):
            lo = state[w]
            if it.pgm:
                emit_pgm(Tag(rec, w), s, fx, lo)
            else:
                sl.emit_iters(Tag(rec, w), it, s, fx, mag, lo, 0)
            n[w] = len(s._rec_) - lo
            state[w] = len(s._rec_)
        row = dl.itstat[-1]
        rec.ev('out', it=int(row.Iter), nxi=n['x'], ndi=n['d'], wxi=p['xi'],
               wdi=p['di'], o=stat(fx, row), x=stat(fx, dl.xstep.itstat[-1]),
               d=stat(fx, dl.dstep.itstat[-1]))
        return bool(p['cb'])
    rec.trace(key, judge='DlTrace', shards=g.shards, cfg=g.cfg)
    started.append(key)
    dl = construct(g, p, emit)
    v = {}
    for w, it, s in (('x', g.x, dl.xstep), ('d', g.d, dl.dstep)):
        s.__class__ = (pl.observe if it.pgm else sl.observe)(type(s))
        if it.pgm:
            v[w + 'X'] = vec(s.X)
            v[w + 'Y'] = vec(s.spat(s.Yf if it.dft else s.Y))
        else:
            v[w + 'Y'] = vec(sl.flat1(it, s, s.var_y(),
                                      getattr(s, 'Y1', None)))
            v[w + 'X'] = v[w + 'Y']
    nx = int(np.prod(g.x.xsh))
    rec.ev('start', nx=nx, D=vec(dl.xstep.D), x0=x0(g, vec, v['xX']), **v)
    for n in (p['no'], p['no2']):
        if n == 0:
            continue
        dl.opt['MaxMainIter'] = n
        D = dl.solve()
        if state['bad']:
            return
        full = dl.getdict(crop=False) if g.conv else dl.getdict()
        x = dl.getcoef()
        rec.ev('ret', v=vec(D), full=vec(full), x=vec(x), n=int(dl.j),
               sh=list(np.shape(x)), xsh=list(g.x.xsh),
               dsh=list(np.shape(D)), xdsh=list(g.dish))
        if g.conv:
            rec.ev('recon', dgiven=False, given=False,
                   v=vec(dl.reconstruct()))
            X = sl.take(c['x'], g.x.xsh, g.dt)
            D = sl.take(p['D0'], g.dish, g.dt)
            rec.ev('recon', dgiven=False, given=True, X=vec(X),
                   v=vec(dl.reconstruct(X=X)))
            rec.ev('recon', dgiven=True, given=False, D=vec(D),
                   v=vec(dl.reconstruct(D=D)))


class Pool(object):
    """Stand-in for a pool of processes: work items one after the other in a
    given order."""
    def __init__(self, prm):
        self.prm, self.turn = prm, 0

    def __call__(self, processes=None):
        return self

    def map(self, f, it):
        it = list(it)
        prm = self.prm[self.turn % len(self.prm)]
        self.turn += 1
        order = [i - 1 for i in prm if i <= len(it)]
        order += [i for i in range(len(it)) if i not in order]
        r = {i: f(it[i]) for i in order}
        return [r[i] for i in range(len(it))]

    def close(self):
        pass

    join = close


def run_par(rec, key, c, p, fx, arr, mag, started):
    """Parallel consensus dictionary learning."""
    import multiprocessing
    from sporco.dictlrn import prlcnscdl as pr
    mask = p['kind'] == 'mask'
    p = dict(p, xm='admm', dm='cns', acc=True, xi=1, di=1, cb=False)
    c = dict(c, cdm=True, ar=False, hm=False)
    g = make(c, p, fx, arr)
    g.x.o['AutoRho'] = g.d.o['AutoRho'] = {'Enabled': False}
    C = (pr.ConvBPDNMaskDcplDictLearn_Consensus if mask else
         pr.ConvBPDNDictLearn_Consensus)
    K = g.x.xsh[-2]

    def vec(a):
        return sl.vec(fx, a)

    def swap(a, s):
        return np.swapaxes(a, 0, s.xstep.cri.axisK + 1)[0]

    def last(a):
        return np.moveaxis(a, 0, -1)

    def cat(*a):
        return np.concatenate([np.asarray(v).ravel() for v in a])

    def observe(s):
        v = {}
        if mask:
            v['xY'] = cat(swap(pr.mp_Z_Y0, s), swap(pr.mp_Z_Y1, s))
            v['xU'] = cat(swap(pr.mp_Z_U0, s), swap(pr.mp_Z_U1, s))
            v['xv'] = cat(swap(pr.mp_Z_Y1, s))
            v['dY'] = cat(pr.mp_D_Y0, np.moveaxis(pr.mp_D_Y1[..., 0], 0, -2))
            v['dU'] = cat(last(pr.mp_D_U0),
                          np.moveaxis(pr.mp_D_U1[..., 0], 0, -2))
            v['dv'] = np.array(pr.mp_D_Y0)
        else:
            v['xY'] = v['xv'] = cat(swap(pr.mp_Z_Y, s))
            v['xU'] = cat(swap(pr.mp_Z_U, s))
            v['dY'] = cat(pr.mp_D_Y)
            v['dU'] = cat(last(pr.mp_D_U))
            v['dv'] = np.array(pr.mp_D_Y)
        v['xX'] = cat(swap(pr.mp_Z_X, s))
        v['dX'] = last(np.array(pr.mp_D_X))
        return v

    def emit(s):
        w = observe(s)
        if not max(np.max(np.abs(a)) for a in w.values()) < BIG:
            state['bad'] = True
            return True
        q = state['w']
        for h, al, rho in (('x', p['xal'] / 4.0, g.x.o['rho']),
                           ('d', p['dal'] / 4.0, g.d.o['rho'])):
            # the solution of the first step is stored after relaxation
            yp = q[h + 'v']
            if h == 'd':
                yp = yp[..., np.newaxis]
            X = (w[h + 'X'] - (1 - al) * yp) / al
            rec.ev('half', w=h, sub='step', k=1, Yp=vec(q[h + 'Y']),
                   Up=vec(q[h + 'U']), X=vec(X), Y=vec(w[h + 'Y']),
                   U=vec(w[h + 'U']), rho=fx(rho, 256))
        state['w'] = w
        row = s.itstat[-1]
        rec.ev('out', it=int(row.Iter), nxi=1, ndi=1, wxi=1, wdi=1,
               o=stat(fx, row), x={}, d={})

    def build(nproc, nit, cb=None):
        o = {'MaxMainIter': nit, 'AccurateDFid': bool(c['tr']),
             'Callback': cb, 'DictSize': g.dsz, 'CBPDN': g.x.o,
             'CCMOD': g.d.o}
        w = [g.W] if mask else []
        return C(g.D0, g.S, g.x.cfg['lm'] / 16.0, *w, opt=C.Options(o),
                 nproc=nproc, **g.kw)
    rec.trace(key, judge='DlTrace', shards=6, cfg=g.cfg)
    started.append(key)
    state = {'bad': False}
    s = build(0, p['no'], emit)
    w = state['w'] = observe(s)
    rec.ev('start', nx=int(np.prod(g.x.xsh)), D=vec(s.xstep.D),
           x0=x0(g, vec, w['xY']), xX=vec(w['xY']), xY=vec(w['xY']), dX=vec(w['dv']),
           dY=vec(w['dY']))
    for n in (p['no'], p['no2']):
        if n == 0:
            continue
        s.opt['MaxMainIter'] = n
        D = s.solve()
        if state['bad']:
            return
        x = s.getcoef()
        rec.ev('ret', v=vec(D), full=vec(s.getdict(crop=False)), x=vec(x),
               n=int(s.j), sh=list(np.shape(x)), xsh=list(g.x.xsh),
               dsh=list(np.shape(D)), xdsh=list(g.dish))
        rec.ev('recon', dgiven=False, given=False, v=vec(s.reconstruct()))
    tot = p['no'] + p['no2']

    def other(how, s):
        row = s.itstat[-1]
        rec.ev('other', how=how, v=vec(s.getdict()), x=vec(s.getcoef()),
               n=int(s.j), o=stat(fx, row))
    s = build(0, tot)
    s.solve()
    other('division into calls', s)
    pool = multiprocessing.Pool
    multiprocessing.Pool = Pool(p['prm'])
    try:
        s = build(2, tot)
        s.solve()
    finally:
        multiprocessing.Pool = pool
    other('order of the signals', s)
    if p['par']:
        s = build(1 + p['np'], tot)
        s.solve()
        other('number of processes', s)
    # the serial solver of the same problem
    q = dict(p, xi=1, di=1, acc=bool(c['tr']))
    g.x.o['MaxMainIter'] = g.d.o['MaxMainIter'] = 1
    sr = construct(g, dict(q, no=tot), None)
    sr.solve()
    rec.ev('other', how='serial solver', v=vec(sr.getdict()),
           x=vec(sr.getcoef()), n=int(sr.j), o=stat(fx, s.itstat[-1]))


def harness(rec, runf=run, scn=None, judge='DlTrace'):
    import json
    import os
    import warnings
    warnings.simplefilter('ignore')
    import sporco.fft as ft
    from vlib.core import fx, arr, mag
    ft.pyfftw_planner_effort = 'FFTW_ESTIMATE'
    ft.pyfftw_threads = 1
    if scn is None:
        with open(os.environ['VERIF_SCN']) as f:
            scn = [x['s'] for x in json.load(f)]
    started = []
    for i, q in enumerate(scn):
        key = '%s%d' % (q['p']['kind'], i)
        try:
            runf(rec, key, q['c'], q['p'], fx, arr, mag, started)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if not any('/sporco/' in f.filename for f in tb):
                raise
            if key not in started[-1:]:
                rec.trace(key, judge=judge, shards=6,
                          cfg={'cls': 'none', 'of': q['c']})
            rec.ev('exc', t='%r at %s:%d' % (e, tb[-1].filename,
                                             tb[-1].lineno))
