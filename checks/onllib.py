"""Online convolutional dictionary learning: instances and recording."""
import numpy as np

from checks import solverlib as sl
from checks.dllib import Tag, stat, BIG


class Capture(object):
    """Record the sparse coding objects created by the online solvers."""

    def __init__(self):
        from sporco.admm import cbpdn
        self.C = [cbpdn.ConvBPDN, cbpdn.ConvBPDNMaskDcpl]
        self.objs = []

    def __enter__(self):
        objs = self.objs
        self.old = []
        for C in self.C:
            base = C.solve
            self.old.append(C.__dict__.get('solve'))

            def solve(s, _base=base):
                if not hasattr(s, '_seen_'):
                    s._seen_ = True
                    s.__class__ = sl.observe(type(s))
                    objs.append(s)
                return _base(s)
            C.solve = solve
        return self

    def __exit__(self, *a):
        for C, o in zip(self.C, self.old):
            if o is None:
                del C.solve
            else:
                C.solve = o


def emit_steps(rec, it, xs, fx):
    for i, r in enumerate(xs._rec_):
        rec.ev('half', w='x', sub='step', k=i + 1, rho=fx(r['rho'], 256),
               X=sl.vec(fx, r['X']),
               **{n: sl.vec(fx, sl.flat1(it, xs, r[n], r.get(n + '1')))
                  for n in ('Yp', 'Up', 'Y', 'U')})


def run(rec, key, c, p, fx, arr, mag, started):
    from sporco.dictlrn import onlinecdl
    mask = p['kind'] == 'mask'
    c = dict(c, cls='ConvBPDNMaskDcpl' if mask else 'ConvBPDN', rx=False,
             rv='Y1', norho=False, lm=p['lm'], nit=p['xi'],
             wk='m' if c['wk'] == 'full' else c['wk'])
    N, L, M, C, K, Cd, Dsh, Ssh, dk = sl.conv_shapes(c)
    n = len(N)
    dt = np.dtype('f4' if c['f4'] else 'f8')
    d1 = Cd > 1 or (p['d1'] and Cd == 1)     # explicit channel axis of D
    ch = (Cd,) if d1 else ()
    if M > 1 and c['tr']:
        L2 = tuple(min(v, w) for v, w in zip(c['ash'], N))
        m0 = 1 + c['nb'] % (M - 1)
        dsz = (L + ch + (m0,), L2 + ch + (M - m0,))
        sup = [L] * m0 + [L2] * (M - m0)
        mx = tuple(np.max(np.array(sup), axis=0))
    else:
        dsz, sup, mx = L + ch + (M,), [L] * M, L
    multi = isinstance(dsz[0], tuple)
    D0 = sl.take(p['D0'], mx + ch + (M,), dt, c['lay'])
    cfg = {'cls': p['kind'], 'Nv': list(N), 'M': M, 'Cd': Cd, 'zm': c['zm'],
           'sup': [list(v) for v in sup], 'D0': arr(D0), 'ea': p['ea'],
           'eb': p['eb']}
    # data of the calls
    calls = []
    for q in p['calls']:
        k = K if p['fixK'] else q['K']
        nv = tuple(a + b for a, b in zip(N, q['N'][:n]))
        while np.prod(nv) * C * k * M > 60 and k > 1:
            k -= 1
        kx = k > 1 or q['kx']
        ssh = nv + ((C,) if C > 1 else ()) + ((k,) if kx else ())
        kd = 1 if kx else 0
        # the default interpretation of the axes, where it is the right one
        if not kx and C == 1:
            none = True
        elif kx and C > 1:
            none = True
        else:
            none = d1 == (C > 1)
        calls.append((q, k, nv, kx, ssh, kd, none))
    kds = set(x[5] for x in calls)
    ctor = None
    if p['dkc']:
        ctor = calls[0][5]
    o = None
    xcalls = []
    for q, k, nv, kx, ssh, kd, none in calls:
        it = sl.make(dict(c, N=list(nv), K=k, C=C, M=M, S=q['S']), fx, arr)
        if o is None:
            o = it.o
            o.pop('L1Weight', None)
            w = np.array(1.0)
            if c['wk'] == 'm':
                w = sl.take(c['w'], (1,) * (n + 2) + (M,), dt) / 4
            elif c['wk'] == 's':
                w = np.asarray(c['w'][0] / 4.0)
            if c['wk'] != 'none':
                o['L1Weight'] = w
        xc = dict(it.cfg, y0=False, u0=False, dual=False, wl1=arr(w, 4))
        xc['S'] = arr(sl.take(q['S'], ssh, dt, c['lay']))
        xc['D'] = {'sh': list(mx + ch + (M,)),
                   'v': [0] * int(np.prod(mx + ch + (M,)))}
        W = None
        if mask:
            W = np.ones((1,) * n)
            wk = c['mk'] if q['wm'] else 'none'
            if wk != 'none':
                W = sl.take(q['W'], nv if wk == 'n' else ssh, dt) / 4
                if wk == 'bin':
                    W = (W > 0.5).astype(dt)
            xc['W'] = arr(W, 4)
            # a single extra axis of a mask for one multichannel signal
            if wk == 'none':
                W = None
        xcalls.append((it, xc, W))
    if p['fast']:
        o['FastSolve'] = True
    Cl = (onlinecdl.OnlineConvBPDNMaskDictLearn if mask else
          onlinecdl.OnlineConvBPDNDictLearn)
    xo = dict(o)
    opt = Cl.Options({'eta_a': p['ea'] / 4.0, 'eta_b': p['eb'] / 4.0,
                      'ZeroMean': c['zm'], 'CBPDN': xo,
                      'DictSize': dsz if multi or p['dsz'] else None})
    rec.trace(key, judge='OnlTrace', shards=6, cfg=cfg)
    started.append(key)

    def vec(a):
        return sl.vec(fx, a)
    kw = {} if ctor is None else {'dimK': ctor}
    s = Cl(D0, p['lm'] / 16.0, opt=opt, dimN=n, **kw)
    rec.ev('ostart', D=vec(s.getdict()), sh=list(s.getdict().shape))
    for (q, k, nv, kx, ssh, kd, none), (it, xc, W) in zip(calls, xcalls):
        S = sl.take(q['S'], ssh, dt, c['lay'])
        kw = {}
        if ctor is None:
            if not (none and q['wm']):
                kw['dimK'] = kd
        elif ctor != kd:
            kw['dimK'] = kd
        if mask:
            kw['W'] = W
        xc['dk'] = kd
        with Capture() as cap:
            D = np.array(s.solve(S, **kw), copy=True)
        xs = cap.objs
        if len(xs) != 1:
            raise RuntimeError('sparse coding not observed')
        xs = xs[0]
        if not np.max(np.abs(xs.getcoef())) < BIG:
            return
        Cx = C if Cd == 1 else 1
        rec.ev('call', x=xc, nx=int(np.prod(nv) * Cx * k * M))
        if p['fast']:
            emit_steps(rec, it, xs, fx)
        else:
            sl.emit_iters(Tag(rec, 'x'), it, xs, fx, mag, 0, 0)
        row = s.itstat[-1]
        o = {f: fx(getattr(row, f), 1024) for f in
             ('ObjFun', 'DFid', 'RegL1', 'PrimalRsdl', 'DualRsdl', 'Rho')}
        # no statistics of the sparse coding are computed for fast solves
        xr = xs.itstat[-1] if not p['fast'] else None
        x = {f: fx(getattr(xr, f), 1024) if xr else 0 for f in o}
        rec.ev('dstep', D=vec(s.getdict()), ret=vec(D), wxi=p['xi'],
               it=int(row.Iter), eta=fx(row.Eta, 4096),
               cnstr=fx(row.Cnstr, 1024), dd=fx(row.DeltaD, 1024), o=o, x=x)
