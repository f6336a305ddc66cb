"""Transforms, convolution and linear filters (sporco.fft, sporco.signal)."""
import json
import os


def models(tier):
    return [{'module': 'FourMC', 'workers': 4, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANT MaxN = %d\nINVARIANTS Unit Inverse '
             'Parseval Herm ConvLaws Adjoint TikFix\nCHECK_DEADLOCK FALSE\n' %
             (4 if tier == 'quick' else 8)}]


def generators(tier, seed):
    n = 1600 if tier == 'quick' else 12000
    return [{'module': 'FourGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 23 + 3))}]


def harness(rec):
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    import sporco.fft as ft
    import sporco.signal as sg
    from vlib.core import fx, arr
    ft.pyfftw_planner_effort = 'FFTW_ESTIMATE'
    ft.pyfftw_threads = 1
    U = 4096

    def run(key, c, n):
        op = c['op']
        sh = tuple(c['sh'])
        nd = len(sh)
        f4 = c['dt'] == 'f4'
        rdt = np.dtype(c['dt'])
        cdt = np.dtype('c8' if f4 else 'c16')
        sz = int(np.prod(sh))
        re = np.array(c['re'][:sz]).reshape(sh)
        im = np.array(c['im'][:sz]).reshape(sh)
        if op in ('rfft', 'irfft', 'dct', 'grad', 'gradT', 'rnorm') or (
                op not in ('ifft',) and not c['cplx']):
            im = im * 0

        def lay(x):
            if c['lay'] == 'F':
                return np.asfortranarray(x)
            if c['lay'] == 'R':
                return np.ascontiguousarray(x[::-1])[::-1]
            return np.ascontiguousarray(x)
        x = lay((re + 1j * im).astype(cdt) if np.any(im) or op == 'ifft'
                else re.astype(rdt))
        x0 = x.copy()
        ax, seen = [], set()
        for a in c['ax']:
            if -nd <= a < nd and a % nd not in seen:
                seen.add(a % nd)
                ax.append(a)
        none = not ax
        axf = list(range(nd)) if none else ax
        axarg = None if none else tuple(ax)
        s = [c['s'][i] if c['uses'] and not none else sh[a]
             for i, a in enumerate(axf)]
        sarg = tuple(s) if c['uses'] and not none else None
        prec = True
        rec.trace(key, judge='FourTrace', shards=4)
        try:
            d = dict(op=op, re=arr(re), im=arr(im), ax=axf, s=s)
            if op in ('fft', 'ifft', 'rfft', 'irfft', 'rnorm') and n % 2:
                # an earlier transform of the same array over other axes
                swp = [a + nd if a < 0 else a - nd for a in axf]
                swp = [{-1: -2, -2: -1}.get(a, a) for a in
                       (axf if n % 4 == 1 else swp)]
                if len(set(a % nd for a in swp)) == len(swp) and \
                        all(-nd <= a < nd for a in swp):
                    (ft.fftn if op == 'fft' else ft.ifftn if op == 'ifft'
                     else ft.rfftn)(x, None, tuple(swp))
            if op in ('fft', 'ifft', 'rfft'):
                fn = {'fft': ft.fftn, 'ifft': ft.ifftn, 'rfft': ft.rfftn}[op]
                if n % 3 == 0:
                    fn = {'fft': ft.fftn_func(), 'ifft': ft.ifftn_func(),
                          'rfft': ft.fftn_func(True)}[op]
                X = fn(x, sarg, axarg)
                prec = X.dtype == cdt
                d.update(Fr=arr(X.real, U), Fi=arr(X.imag, U))
            elif op == 'irfft':
                inv = ft.ifftn_func(True) if n % 3 == 0 else ft.irfftn
                X = ft.rfftn(x, None, axarg)
                X0 = X.copy()
                if n % 2 and not none and min(axf) < 0 and nd > 1:
                    swp = [{-1: -2, -2: -1}.get(a, a) for a in axf]
                    if len(set(a % nd for a in swp)) == len(swp):
                        inv(X, tuple(sh[a] for a in axf), tuple(swp))
                y = inv(X, tuple(sh[a] for a in axf), axarg if not none
                        else tuple(range(nd)))
                prec = y.dtype == rdt and np.array_equal(X, X0)
                d.update(op='roundtrip', Fr=arr(y, U), Fi=arr(y * 0, U))
            elif op == 'dct':
                axl = None if none else list(ax)
                for i, a in enumerate(axf):
                    if sh[a] > 4:
                        x = np.ascontiguousarray(
                            np.take(x, range(4), axis=a))
                re = x.astype(int)
                x0 = x.copy()
                F = ft.dctii(x, axl)
                d.update(re=arr(re), Fr=arr(F, U),
                         back=arr(ft.idctii(F, axl), U))
            elif op == 'conv':
                bsh = tuple(c['bsh'][i] if none or i in [a % nd for a in ax]
                            else (sh[i] if c['zp'] else 1)
                            for i in range(nd))
                bn = int(np.prod(bsh))
                br = np.resize(np.array(c['b']), bn).reshape(bsh)
                bi = np.resize(np.array(c['im']), bn).reshape(bsh) * \
                    (1 if c['npd'] == (0 if c['cplx'] else 2) else 0)
                b = (br + 1j * bi).astype(cdt) if np.any(bi) else \
                    br.astype(rdt)
                org = tuple(c['org'][:len(axf)])
                # sizes with transform factors other than small primes are
                # fine: the oracle is a direct sum
                y = ft.fftconv(x, b, axes=axarg,
                               origin=org if c['useorg'] else None)
                if not c['useorg']:
                    org = (0,) * len(axf)
                if np.isrealobj(x) and np.isrealobj(b):
                    prec = np.isrealobj(y)
                d.update(br=arr(br), bi=arr(bi), org=list(org),
                         Fr=arr(np.real(y), 1024), Fi=arr(np.imag(y), 1024))
            elif op == 'norm':
                X = ft.fftn(x, axes=axarg)
                v = ft.fl2norm2(X, axf) if n % 2 else \
                    ft.fl2norm2_func()(X, sh, axis=axf)
                d.update(val=fx(v, 1024))
            elif op == 'rnorm':
                X = ft.rfftn(x, axes=axarg)
                v = ft.rfl2norm2(X, sh, tuple(axf)) if n % 3 else \
                    ft.fl2norm2_func(True)(X, sh, axis=tuple(axf))
                d.update(op='norm', val=fx(v, 1024))
            elif op == 'grad':
                a = axf[0]
                z = sg.grad(x, a, zero_pad=c['zp']) if c['zp'] else \
                    sg.grad(x, a)
                d.update(z=arr(z), axis=a, zp=c['zp'])
            elif op == 'gradT':
                a = axf[0]
                if c['zp'] and sh[a] < 2:
                    x = np.concatenate((x, x + 1), axis=a)
                    x0 = x.copy()
                    d.update(re=arr(x))
                z = sg.gradT(x, a, zero_pad=c['zp']) if c['zp'] else \
                    sg.gradT(x, a)
                d.update(z=arr(z), axis=a, zp=c['zp'])
            elif op == 'gfilt':
                axp = sorted(a % nd for a in axf)
                if any(sh[a] < 2 for a in axp):
                    x = np.ascontiguousarray(np.repeat(
                        re, 2, axis=0)) if nd == 1 else np.tile(re, (2,) * nd)
                    re = x
                x = re.astype(rdt)
                xs = x.shape
                x0 = x.copy()
                axs = tuple(xs[a] for a in axp)
                Gf, GHG = sg.gradient_filters(nd, tuple(axp), axs, dtype=rdt)
                Xf = ft.rfftn(x, None, tuple(axp))
                D = [ft.irfftn(Gf[..., i] * Xf, axs, tuple(axp))
                     for i in range(len(axp))]
                d.update(ax=axp, re=arr(re), D=[arr(q, 1024) for q in D],
                         GG=arr(GHG, 1024),
                         GS=arr(np.sum(np.abs(Gf)**2, axis=-1), 1024))
            elif op == 'tik':
                x = np.resize(np.array(c['re']),
                              (c['bsh'][0] + 1, c['bsh'][1] + 1) +
                              ((2,) if nd == 3 else ())).astype(rdt)
                x0 = x.copy()
                npd = min(c['npd'], min(x.shape[:2]))
                lp, hp = sg.tikhonov_filter(x, c['lm'] / 4.0, npd)
                sp = np.pad(x, ((npd, npd),) * 2 + ((0, 0),) * (x.ndim - 2),
                            'symmetric')
                lp0, _ = sg.tikhonov_filter(sp, c['lm'] / 4.0, 0)
                prec = lp.dtype == rdt and hp.dtype == rdt
                d.update(re=arr(x), sp=arr(sp), lp=arr(lp, U), hp=arr(hp, U),
                         lp0=arr(lp0, U), npd=npd, lm=c['lm'])
            elif op == 'alloc':
                dt = rdt
                e1 = ft.empty_aligned(sh, dt)
                fe = ft.empty_aligned_func(True)
                e2 = ft.rfftn_empty_aligned(sh, axf, dt) if n % 2 else \
                    fe(sh, axf, dt)
                e3 = ft.empty_aligned_func(False)(sh, axf, dt)
                ba = ft.byte_aligned(x)
                d = dict(op=op, sh=list(sh), ax=axf, sh1=list(e1.shape),
                         dt1=e1.dtype.str[1:], dt=dt.str[1:],
                         sh2=list(e2.shape), dt2=e2.dtype.str[1:],
                         cdt=cdt.str[1:], rdt=rdt.str[1:],
                         cd=ft.complex_dtype(dt).str[1:],
                         rd=ft.real_dtype(cdt).str[1:],
                         kept=bool(np.array_equal(ba, x)
                                   and ba.dtype == x.dtype
                                   and e3.shape == tuple(sh)
                                   and e3.dtype == dt))
            rec.ev('op', name=op, pure=bool(np.array_equal(x, x0)),
                   prec=bool(prec), **d)
        except Exception as e:
            rec.ev('exc', t=op + ': ' + repr(e))

    with open(os.environ['VERIF_SCN']) as f:
        scn = json.load(f)
    for n, sc in enumerate(scn):
        run('%s%d' % (sc['s']['op'], n), sc['s'], n)
