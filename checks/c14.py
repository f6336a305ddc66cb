"""Structured linear solvers and linear algebra helpers (sporco.linalg)."""
import json
import os


def models(tier):
    return [{'module': 'LinMC', 'workers': 4, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANT R = %d\nINVARIANTS SM SM2 Accepts '
             'Rejects\nCHECK_DEADLOCK FALSE\n' % (1 if tier == 'quick' else 2)}]


def generators(tier, seed):
    n = 2500 if tier == 'quick' else 15000
    return [{'module': 'LinGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 19 + 2))}]


def harness(rec):
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    import sporco.linalg as sl
    from vlib.core import fx, arr, mag
    HNE = getattr(sl, 'have_numexpr', None)
    S = 4096

    def carr(a, s=1):
        a = np.asarray(a)
        return {'re': arr(np.real(a), s), 'im': arr(np.imag(a), s)}

    def run(key, c):
        op = c['op']
        f4 = c['dt'] == 'f4'
        rdt = np.dtype(c['dt'])
        cdt = np.dtype('c8' if f4 else 'c16')
        ins = []

        def take(nm, sh, cplx=False, im=None):
            n = int(np.prod(sh))
            x = np.resize(np.array(c[nm]), n).reshape(sh)
            if cplx:
                x = (x + 1j * np.resize(np.array(c[im]), n).reshape(sh)).astype(cdt)
            else:
                x = x.astype(rdt)
            if c['lay'] == 'F':
                x = np.asfortranarray(x)
            ins.append((x, x.copy()))
            return x
        rec.trace(key, judge='LinTrace', shards=4)
        try:
            Nv = tuple(c['N'][:c['dimN']])
            rho = c['rho'] / 4.0
            d = None
            if op in ('dbi', 'dbd'):
                cp = c['cplx']
                C = c['C']
                K = c['K']
                M = c['M']
                ash = Nv + (C if c['ahc'] else 1, K if c['ahk'] else 1, M)
                bsh = Nv + (C, K, M)
                ax = len(bsh) - 1
                if not c['mlast']:
                    ash = ash[-1:] + ash[:-1]
                    bsh = bsh[-1:] + bsh[:-1]
                    ax = 0
                ah = take('a', ash, cp, 'ai')
                b = take('b', bsh, cp, 'bi')
                axa = ax - len(bsh) if c['neg'] else ax
                if op == 'dbi':
                    dd = np.array(rho)
                    cc = sl.solvedbi_sm_c(ah, np.conj(ah), rho, axa) \
                        if c['cache'] else None
                    if cc is not None:
                        ins.append((cc, cc.copy()))
                    x = sl.solvedbi_sm(ah, rho, b, cc, axa)
                else:
                    dsh = {'full': bsh, 'scalar': (1,) * len(bsh),
                           'm': tuple(s if i == ax else 1
                                      for i, s in enumerate(bsh)),
                           'n': tuple(1 if i == ax else s
                                      for i, s in enumerate(ash))}[c['dk']]
                    dd = take('d', dsh) / rdt.type(4)
                    cc = sl.solvedbd_sm_c(ah, np.conj(ah), dd, axa) \
                        if c['cache'] else None
                    x = sl.solvedbd_sm(ah, dd, b, cc, axa)
                d = dict(op='system', ah=carr(ah), d=arr(dd, 4), b=carr(b),
                         x=carr(x, S), axM=ax, axK=0, hasK=False,
                         slack=(200 if f4 else 4))
            elif op in ('ism', 'rsm', 'cg'):
                C, K, M = c['C'], c['K'], min(c['M'], 3)
                ah = take('a', Nv + (C if c['ahc'] or op == 'cg' else 1,
                                     K, M), True, 'ai')
                b = take('b', Nv + (C, 1, M), True, 'bi')
                aM, aK = len(Nv) + 2, len(Nv) + 1
                nM, nK = (-1, -2) if c['neg'] else (aM, aK)
                if op == 'ism':
                    x = sl.solvemdbi_ism(ah, rho, b, nM, nK)
                elif op == 'rsm':
                    x = sl.solvemdbi_rsm(ah, rho, b, aK, len(Nv))
                else:
                    isn = take('d', b.shape) if c['isn'] else None
                    x, _ = sl.solvemdbi_cg(ah.astype(np.complex128), rho,
                                           b.astype(np.complex128), nM, nK,
                                           tol=1e-8, isn=isn)
                d = dict(op='system', ah=carr(ah), d=arr(np.array(rho), 4),
                         b=carr(b), x=carr(x, S), axM=aM, axK=aK, hasK=True,
                         slack=(400 if f4 else 4))
            elif op in ('lu', 'cho'):
                A = take('a', (c['r'], c['q']))
                kw = {'lower': c['lower']} if op == 'cho' else {}
                fac = getattr(sl, op + '_factor')(A, rho, **kw)
                for nm in ('ATAI', 'AATI'):
                    n = A.shape[1] if nm == 'ATAI' else A.shape[0]
                    bsh = (n,) if c['vec'] else (
                        (n, c['nb']) if nm == 'ATAI' else (c['nb'], n))
                    b = take('b', bsh)
                    x = getattr(sl, '%s_solve_%s' % (op, nm))(
                        A, rdt.type(rho), b, *fac)
                    rec.ev('op', op=nm.lower(), name='%s_solve_%s' % (op, nm),
                           A=arr(A), r4=c['rho'], b=arr(b),
                           x=arr(x, S), pure=True) if not f4 else None
            elif op == 'sylv':
                n, m = c['r'], c['q']

                def mk(kind, nm, n, row):
                    if kind == 'd1':
                        v = take(nm, (n,))
                        return v, np.diag(v)
                    if kind == 'd2':
                        v = take(nm, (1, n) if row else (n, 1))
                        return v, np.diag(v.ravel())
                    v = take(nm, (n, n))
                    v = np.tril(v) + np.tril(v, -1).T
                    if c['pert']:
                        v = v.dot(v.T)
                    if kind == 'tup':
                        return tuple(np.linalg.eigh(v)), v
                    return v, v
                A, Am = mk(c['ak'], 'a', n, False)
                B, Bm = mk(c['bk'], 'ai', m, True)
                C = take('b', (n, m))
                # the equation has a unique solution iff no product of
                # eigenvalues equals -alpha; keep away from that
                al = rho
                ev = np.outer(np.linalg.eigvalsh(Am), np.linalg.eigvalsh(Bm))
                while np.min(np.abs(ev + al)) < 0.2:
                    al += 0.25
                if np.max(np.abs(Am)) * np.max(np.abs(Bm)) > 150 or f4:
                    rec.ev('op', op='bcirc', name='skip', As=[arr(np.eye(1))],
                           z=arr(np.eye(1)), pure=True)
                    return
                X = sl.solve_symmetric_sylvester(A, B, C, al)
                d = dict(op='sylv', A=arr(Am), B=arr(Bm), C=arr(C),
                         al=fx(al, 4), X=arr(X, S))
            elif op == 'inner':
                sh = Nv + (c['C'], c['M'])
                xsh = tuple(1 if (c['ahc'] and i == len(Nv)) else s
                            for i, s in enumerate(sh))
                ysh = tuple(1 if (c['ahk'] and i == 0) else s
                            for i, s in enumerate(sh))
                ax = c['axis']
                if ax < -len(sh) or ax >= len(sh):
                    ax = -1
                x = take('a', xsh, c['cplx'], 'ai')
                y = take('b', ysh, c['cplx'], 'bi')
                z = sl.inner(x, y, axis=ax) if ax != -1 or c['neg'] \
                    else sl.inner(x, y)
                d = dict(op='inner', x=carr(x), y=carr(y), z=carr(z),
                         axis=ax, full=list(sh))
            elif op == 'dot':
                nd = 2 + (c['K'] > 1)
                sh = ([c['r'], c['q'], c['K']])[:nd]
                ax = c['axis']
                if ax < -nd or ax >= nd:
                    ax = -2
                a = take('a', (c['M'], sh[ax]))
                b = take('b', tuple(sh))
                z = sl.dot(a, b) if ax == -2 and c['neg'] else \
                    sl.dot(a, b, axis=ax)
                d = dict(op='dot', a=arr(a), b=arr(b), z=arr(z), axis=ax)
            elif op == 'bcirc':
                As = [take('a', (c['r'], c['q'])) * (i + 1) + i
                      for i in range(c['K'])]
                d = dict(op='bcirc', As=[arr(a) for a in As],
                         z=arr(sl.block_circulant(tuple(As))))
            elif op == 'rrs':
                ax = take('a', (c['r'], c['q']))
                b = take('b', (c['r'], c['q']))
                if c['neg']:
                    ax, b = b, ax
                if c['pert'] and c['ahc']:
                    ax, b = (b * 0, ax) if c['vec'] else (ax, b * 0)
                if c['lower'] and c['ahk']:
                    b = ax.copy()
                d = dict(op='rrs', ax=arr(ax), b=arr(b),
                         val=fx(sl.rrs(ax, b), S))
            elif op == 'adj':
                A = take('a', (c['r'], c['q']))
                A = A.astype(float)
                B = A.copy()
                if c['pert']:
                    B[0, 0] += 1
                np.random.seed(c['M'] + 7)
                f = lambda x: A.dot(x)
                g = lambda x: B.T.dot(x)
                res = sl.valid_adjoint(f, g, (A.shape[1],), (A.shape[0],))
                err = sl.valid_adjoint(f, g, (A.shape[1],), (A.shape[0],),
                                       eps=None)
                if not np.any(A) and not np.any(B):
                    res, err = True, 0.0
                d = dict(op='adj', res=bool(res), err=mag(err),
                         truth=not c['pert'])
            elif op == 'pca':
                U = take('a', (min(c['r'], 3), c['q']))
                B, Sv, C = sl.pca(U, centre=c['vec'])
                n = U.shape[1] if c['vec'] else 1
                Uc = n * U - U.sum(axis=1, keepdims=True) if c['vec'] else U
                if n * n == 9:
                    n = 1
                    Uc = None
                mean = C is None if not c['vec'] else (
                    np.asarray(C).shape == (U.shape[0], 1) and
                    bool(np.allclose(C, U.mean(axis=1, keepdims=True))))
                if Uc is None:
                    rec.ev('op', op='bcirc', name='skip', As=[arr(np.eye(1))],
                           z=arr(np.eye(1)), pure=True)
                    return
                d = dict(op='pca', B=arr(B, 256), S=[fx(s, 16) for s in Sv],
                         U=arr(Uc), cn=n, mean=mean, meanok=True)
            elif op in ('nkp', 'kpsvd'):
                bs, cs = tuple(c['bs']), tuple(c['cs'])
                A = take('a', (bs[0] * cs[0], bs[1] * cs[1]))
                exact = False
                if c['lowr']:
                    A = np.kron(np.array(c['a'][:bs[0] * bs[1]]).reshape(bs),
                                np.array(c['ai'][:cs[0] * cs[1]]).reshape(cs)
                                ).astype(rdt)
                    exact = True
                if op == 'kpsvd':
                    s, B, C = sl.kpsvd(A, bs, cs)
                    d = dict(op='kpsvd', A=arr(A), S=[fx(q, 64) for q in s],
                             B=arr(B, 256), C=arr(C, 256))
                else:
                    s, _, _ = sl.kpsvd(A, bs, cs)
                    B, C = sl.nkp(A, bs, cs)
                    d = dict(op='nkp', A=arr(A), B=arr(B, 32), C=arr(C, 32),
                             s0=fx(s[0], 256), exact=exact)
            pure = all(np.array_equal(u, v) for u, v in ins)
            if d is not None:
                rec.ev('op', name=op, pure=pure, **d)
        except Exception as e:
            rec.ev('exc', t=op + ': ' + repr(e))

    with open(os.environ['VERIF_SCN']) as f:
        scn = json.load(f)
    for n, sc in enumerate(scn):
        if HNE is not None:
            sl.have_numexpr = HNE and n % 2 == 0
        run('%s%d' % (sc['s']['op'], n), sc['s'])
