"""Image metrics, regressions, interpolation and image helpers (sporco.metric,
sporco.interp, sporco.signal, sporco.util)."""
import json
import os


def models(tier):
    return [{'module': 'MetMC', 'workers': 4, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANT R = %d\nINVARIANTS Ratio Blur1 Blur2 '
             'Regr Regr2 Points2 Kernel Mosaic Tile\nCHECK_DEADLOCK FALSE\n'
             % (1 if tier == 'quick' else 2)}]


def generators(tier, seed):
    n = 5000 if tier == 'quick' else 40000
    return [{'module': 'MetGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 23 + 5))}]


def harness(rec):
    import math
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    from sporco import metric, interp, signal, util
    from vlib.core import fx, arr

    def ratio(v):
        """<<m, e>> with v = m 2^e, 2^14 <= m < 2^15"""
        m, e = math.frexp(v)
        m = int(round(m * 32768))
        e -= 15
        if m == 32768:
            m, e = 16384, e + 1
        return [m, e]

    def db(v):
        v = float(v)
        if math.isnan(v):
            return {'cls': 'nan', 'r': [16384, 0]}
        if math.isinf(v):
            return {'cls': 'inf' if v > 0 else 'ninf', 'r': [16384, 0]}
        return {'cls': 'num', 'r': ratio(10.0 ** (v / 10.0))}

    LIM = {'u1': (0, 255), 'i1': (-128, 127), 'u2': (0, 1000),
           'i2': (-1000, 1000), 'i4': (-1000, 1000)}

    def run(key, c):
        op = c['op']
        ins = []

        def lay(a):
            # the arrays of one call have different memory layouts
            kl = 'CFS'[('CFS'.index(c['lay']) + len(ins) *
                        (c['seed'] % 3)) % 3]
            if kl == 'F':
                a = np.asfortranarray(a)
            elif kl == 'S':
                b = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
                b[tuple(slice(None, None, 2) for n in a.shape)] = a
                a = b[tuple(slice(None, None, 2) for n in a.shape)]
            ins.append((a, a.copy()))
            return a

        def mk(nm, sh, dt, cplx=True):
            n = int(np.prod(sh))
            x = np.resize(np.array(c[nm]), n)
            sg = np.resize(np.array(c['sgn']), n)
            z = np.roll(np.resize(np.array(c['z']), n), len(nm) + ord(nm[0]))
            lo, hi = LIM.get(dt, (-1000, 1000))
            if lo < 0 and c['seed'] % 2:
                x = x * sg
            x = np.clip(x, lo, hi)
            if dt in ('c8', 'c16'):
                if cplx:
                    x = x + 1j * z
                else:
                    dt = 'f4' if dt == 'c8' else 'f8'
            return lay(x.astype(dt).reshape(sh))

        def ri(x, nm):
            x = np.asarray(x)
            return {nm: [int(v) for v in np.real(x).ravel().tolist()],
                    nm + 'i': [int(v) for v in np.imag(x).ravel().tolist()]}
        rec.trace(key, judge='MetTrace', shards=6)
        try:
            d = None
            dt = c['dt']
            dt2 = dt if c['dt2'] == 'same' else c['dt2']
            sh = tuple(c['sh'][:c['nd']])
            tol = 24 if dt in ('f4', 'c8') else 8
            if op in ('mae', 'mse', 'snr', 'psnr', 'isnr', 'bsnr'):
                x = mk('x', sh, dt, op != 'psnr')
                if op == 'bsnr' and (dt[0] == 'u') != (dt2[0] == 'u'):
                    dt2 = dt
                if c['kind'] == 'same':
                    y = lay(x.copy())
                elif c['kind'] == 'const':
                    x = lay(np.full_like(x, x.flat[0]))
                    y = mk('y', sh, dt2, op != 'psnr')
                elif c['kind'] == 'near':
                    y = x.copy()
                    y.flat[0] = (y.flat[0] + 1 if y.flat[0] < 100
                                 else y.flat[0] - 1)
                    y = lay(y)
                else:
                    y = mk('y', sh, dt2, op != 'psnr')
                d = dict(op=op, cnt=int(x.size), tol=tol, rng=0)
                d.update(ri(x, 'x'))
                d.update(ri(y, 'y'))
                al = (lambda v: v.tolist()) if c['lst'] else (lambda v: v)
                if op in ('mae', 'mse'):
                    d['v'] = fx(getattr(metric, op)(al(x), al(y)), 1024)
                elif op == 'snr':
                    d['v'] = db(metric.snr(al(x), al(y)))
                elif op == 'psnr':
                    rg = c['rng'] if c['rng'] else None
                    d['rng'] = c['rng']
                    d['v'] = db(metric.psnr(x, y, rg) if rg is not None
                                else metric.psnr(x, y))
                elif op == 'isnr':
                    w = mk('z', sh, dt2)
                    d.update(ri(w, 'z'))
                    d['v'] = db(metric.isnr(al(x), al(y), al(w)))
                else:
                    d['v'] = db(metric.bsnr(x, y))
            elif op in ('pamse', 'gmsd'):
                if dt in ('c8', 'c16'):
                    dt = 'f8'
                sh = tuple(c['sh2'])
                n = sh[0] * sh[1]
                resc = c['rescale']
                if op == 'pamse':
                    x = np.resize(np.array(c['x']), n) % 61
                    y = np.resize(np.array(c['y']), n) % 61
                    x[c['seed'] % n] = mx = max(1, c['mx'] % 100)
                    x = np.minimum(x, mx)
                    scl = 1
                else:
                    # dynamic range of at most 48 after rescaling
                    mx = c['mx'] if resc else 48
                    if dt == 'i1' and mx > 127:
                        mx = 51
                    scl = 255 // mx if resc else 1
                    w = 48 // scl
                    x = mx - np.resize(np.array(c['x']), n) % (w + 1)
                    y = mx - np.resize(np.array(c['y']), n) % (w + 1)
                    x[c['seed'] % n] = mx
                if c['kind'] == 'same':
                    y = x.copy()
                x = lay(x.astype(dt).reshape(sh))
                y = lay(y.astype(dt).reshape(sh))
                if op == 'pamse':
                    v = metric.pamse(x, y, resc) if c['map'] or not resc \
                        else metric.pamse(x, y)
                    d = dict(op=op, x=arr(x), y=arr(y), rescale=resc, mx=mx,
                             zero=bool(abs(v) < 1e-12),
                             r=ratio(v) if v > 0 else [16384, -100])
                else:
                    s, q = metric.gmsd(x, y, resc, True)
                    if not c['map']:
                        s = metric.gmsd(x, y, rescale=resc)
                    d = dict(op=op, x=arr(x), y=arr(y), scl=scl, map=True,
                             q=arr(q, 1024), score=fx(s, 1024))
            elif op in ('lad', 'lmd'):
                N = c['N']
                M = max(c['M'], N + 1)
                A = lay(np.array(c['A'][:M * N], float).reshape(M, N))
                b = lay(np.array(c['b'][:M], float))
                fn = interp.lstabsdev if op == 'lad' else interp.lstmaxdev
                x = fn(A, b)
                d = dict(op=op, A=A.astype(int).tolist(),
                         b=b.astype(int).tolist(), x=[fx(v, 4096) for v in x])
            elif op == 'points':
                p = interp.interpolation_points(c['n'], c['incz']) \
                    if not c['incz'] or c['map'] else \
                    interp.interpolation_points(c['n'])
                d = dict(op=op, n=c['n'], incz=c['incz'],
                         p=[fx(v, 1048576) for v in p])
            elif op == 'kernel':
                m = [k for k in c['pts'][0] + c['pts'][1]] + \
                    [12 * k for k in range(-4, 5)] + c['sh'] + \
                    [c['seed'] % 97 - 48]
                x = lay(np.array(m) / 12.0)
                v = interp.lanczos_kernel(x, c['a']) if c['a'] != 3 or \
                    c['map'] else interp.lanczos_kernel(x)
                if c['scalar']:
                    v = [float(interp.lanczos_kernel(t, c['a'])) for t in
                         x.tolist()]
                d = dict(op=op, m=m, a=c['a'], v=[fx(t, 4096) for t in v])
            elif op == 'filters':
                nd = 1 + c['seed'] % 2
                sz, ms = [], []
                for k in range(nd):
                    if c['expl'][k]:
                        ms.append(c['pts'][k])
                        sz.append(np.array(c['pts'][k]) / 12.0)
                    else:
                        n = c['npt'][k]
                        ms.append([(12 // n) * (i - (n - 1) // 2)
                                   for i in range(n)])
                        sz.append(n)
                if nd == 1 and c['scalar'] and not c['expl'][0]:
                    sz = sz[0]
                elif nd == 1:
                    sz = (sz[0],)
                else:
                    sz = tuple(sz)
                kw = {} if c['coll'] and c['map'] else \
                    {'collapse_axes': c['coll']}
                h = interp.lanczos_filters(sz, c['a'], **kw)
                d = dict(op=op, ms=ms, a=c['a'], coll=c['coll'],
                         h=arr(h, 4096))
            elif op == 'demosaic':
                sh = tuple(max(4, n) for n in c['sh2'])
                n = sh[0] * sh[1]
                x = np.resize(np.array(c['x']), n).reshape(sh)
                x = lay(x.astype(dt if dt in ('u1', 'i4', 'f4') else 'f8'))
                d = dict(op=op, x=arr(x),
                         d=arr(interp.bilinear_demosaic(x), 256))
            elif op == 'gray':
                sh = tuple(c['sh'][:2]) + (3,) + ((c['C'],) if c['K'] % 2
                                                  else ())
                dt = {'c8': 'f4', 'c16': 'f8'}.get(dt, dt)
                x = mk('x', sh, dt, False)
                g = signal.rgb2gray(x)
                d = dict(op=op, x=arr(x), g=arr(g, 1000),
                         tol=8 if dt == 'f4' else 2)
            elif op == 'gauss':
                shp = tuple(c['gn'][:c['nd']])
                if len(shp) == 1 and c['scalar']:
                    g = signal.gaussian(shp[0], c['sd2'] / 2.0)
                elif c['sd2'] == 2 and c['map']:
                    g = signal.gaussian(shp)
                else:
                    g = signal.gaussian(shp, sd=c['sd2'] / 2.0)
                d = dict(op=op, shp=list(shp), sd2=c['sd2'],
                         g=arr(g, 1048576))
            elif op == 'lcn':
                sh = tuple(c['sh2']) + ((c['K'],) if c['K'] else ())
                n = int(np.prod(sh))
                x = np.resize(np.array(c['x'] + c['y'] + c['z']), n) % 64
                x = lay(x.reshape(sh).astype(
                    dt if dt in ('u1', 'i4', 'f4') else 'f8'))
                c4 = c['c4']
                if np.ptp(x) == 0 and c4 == 0:
                    c4 = 4
                r = signal.local_contrast_normalise(
                    x, c['half'], c4 / 4.0 if c4 else None)
                one = [arr(signal.local_contrast_normalise(
                    x[..., k], c['half'], c4 / 4.0 if c4 else None)[2], 64)
                    for k in range(c['K'] if x.size and (c4 or np.all(
                        np.ptp(x, axis=(0, 1)) > 0)) else 0)]
                d = dict(op=op, x=arr(x), half=c['half'], c4=c4, one=one,
                         scn=arr(r[0], 4096), smn=arr(r[1], 256),
                         snrm=arr(r[2], 64))
            elif op == 'noise':
                np.random.seed(c['seed'])
                x = np.arange(3000).reshape(60, 50) % 5 + 2
                x = lay(x.astype(dt if dt in ('u1', 'i2', 'f4') else 'f8'))
                smn, smx = c['smn'], c['smx']
                if dt == 'u1':
                    smn = 0
                if c['map']:
                    smn, smx = 0, 1
                    y = signal.spnoise(x, c['frc8'] / 8.0)
                else:
                    y = signal.spnoise(x, c['frc8'] / 8.0, smn, smx)
                ok = y.shape == x.shape and y.dtype == x.dtype
                d = dict(op=op, n=3000 if ok else -1, frc8=c['frc8'],
                         low=int(np.sum(y == smn)), high=int(np.sum(y == smx)),
                         same=int(np.sum(y == x)))
            elif op == 'mask':
                np.random.seed(c['seed'])
                shp = (50, 60) if c['map'] else (30, 20, 5)
                if dt in ('c8', 'c16'):
                    dt = None
                y = signal.rndmask(shp, c['frc8'] / 8.0) if dt is None else \
                    signal.rndmask(shp, c['frc8'] / 8.0, dtype=np.dtype(dt))
                d = dict(op=op, n=3000, frc8=c['frc8'],
                         zeros=int(np.sum(y == 0)), ones=int(np.sum(y == 1)),
                         shape=y.shape == shp, dtype=y.dtype ==
                         np.dtype(dt or 'f8'))
            elif op == 'tile':
                tk = c['tk']
                C = c['C']
                sz = c['sz'][:c['nsz']]
                if not c['multi'] or tk == 2:
                    sz = sz[:1]
                    sz[0][2] = c['n']
                mr = max(s[0] for s in sz)
                mc = max(s[1] for s in sz)
                per = [s[0:2] for s in sz for _ in range(s[2])]
                N = len(per)
                sh = (mr, mc) + ((C,) if tk == 4 else ()) + (N,)
                n = int(np.prod(sh))
                x = np.resize(np.array(c['x'] + c['y']), n).reshape(sh)
                # outside of the support of an atom there are zeros
                for k, s in enumerate(per):
                    x[s[0]:, ..., k] = 0
                    x[:, s[1]:, ..., k] = 0
                if np.ptp(x) == 0:
                    x.flat[0] += 1
                D = x.astype(dt if dt in ('f4', 'i4') else 'f8')
                if tk == 2:
                    Df = lay(D.reshape(-1, N))
                    im = util.tiledict(Df, (mr, mc))
                elif len(sz) > 1 or c['map'] and c['multi']:
                    Df = lay(D)
                    im = util.tiledict(Df, tuple(
                        (s[0], s[1]) + ((C,) if tk == 4 else ()) + (s[2],)
                        for s in sz))
                else:
                    Df = lay(D)
                    im = util.tiledict(Df)
                d = dict(op=op, sz=per, D=arr(x), im=arr(im, 4096))
            if d is not None:
                pure = all(np.array_equal(u, v) for u, v in ins)
                rec.ev('op', pure=pure, **d)
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
            rec.ev('exc', t=op + ': ' + repr(e))

    with open(os.environ['VERIF_SCN']) as f:
        scn = json.load(f)
    for n, sc in enumerate(scn):
        run('%s%d' % (sc['s']['op'], n), sc['s'])
