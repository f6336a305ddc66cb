"""Array utilities (sporco.array): every recorded call is judged against the
index-level definitions in spec/Arr.tla."""
import json
import os

INV = ('RoundTrip Covered BlocksAreWindows SplitRebuild PadCrop '
       'SubsamplePartition')


def models(tier):
    n = 3 if tier == 'quick' else 4
    return [{'module': 'ArrMC', 'workers': 4, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANT MaxN = %d\nINVARIANTS %s\n'
             'CHECK_DEADLOCK FALSE\n' % (n, INV)}]


def generators(tier, seed):
    n = 1500 if tier == 'quick' else 10000
    return [{'module': 'ArrGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 13 + 1))}]


def harness(rec):
    import warnings
    import collections
    import numpy as np
    warnings.simplefilter('ignore')
    from sporco import array as sa
    from vlib.core import fx, arr

    def layout(x, lay):
        """the same values with a different memory layout"""
        if lay == 'F':
            return np.asfortranarray(x)
        if lay == 'T':
            return np.ascontiguousarray(x.T).T
        if lay == 'S':
            y = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype)
            y[tuple(slice(None, None, 2) for _ in x.shape)] = x
            return y[tuple(slice(None, None, 2) for _ in x.shape)]
        if lay == 'R':
            return np.ascontiguousarray(x[::-1])[::-1]
        return x

    def run(key, c):
        sh = tuple(c['sh'])
        n = int(np.prod(sh))
        x = np.array(c['v'][:n]).reshape(sh)
        w = np.array(c['w'][:n]).reshape(sh).astype(float)
        dt = np.dtype(c['dt'])
        op = c['op']
        if op in ('zdivide', 'avg', 'comb', 'round') and dt.kind == 'i':
            dt = np.dtype('f8')
        x = layout(x.astype(dt), c['lay'])
        stp = tuple(c['stp']) if c['usestp'] else (1,) * c['nb']
        sarg = stp if c['usestp'] else None
        blk = tuple(c['blk'])
        ax = c['ax'] - (len(sh) if c['neg'] else 0)
        x0 = x.copy()
        rec.trace(key, judge='ArrTrace')
        try:
            d = {}
            if op == 'zpad':
                d = dict(out=arr(sa.zpad(x, tuple(c['pd']), c['ax'])),
                         pd=c['pd'], ax=c['ax'])
            elif op == 'zdivide':
                d = dict(out=arr(sa.zdivide(x, w.astype(dt)), 1024),
                         y=arr(w))
            elif op == 'atleast':
                d = dict(out=arr(sa.atleast_nd(c['n'], x)), n=c['n'])
            elif op == 'split':
                d = dict(outs=[arr(y) for y in sa.split(x, ax)], ax=ax)
            elif op == 'roll':
                wsz = tuple(c['wsz'])
                wnm = tuple(c['wnm'])
                mode = c['mode']
                over = [max(0, a + b - s - 1)
                        for a, b, s in zip(wsz, wnm, sh)]
                if any(o > (s - 1) for o, s in zip(over, sh)):
                    mode = 'edge'
                if c['usewnm']:
                    y = sa.rolling_window(x, wsz, wnm, pad=mode)
                else:
                    y = sa.rolling_window(x, wsz)
                    wnm = tuple(s - a + 1 for s, a in zip(sh, wsz))
                d = dict(out=arr(y), wsz=wsz, wnm=wnm, mode=mode)
            elif op == 'sub':
                step = tuple(c['wnm'])
                try:
                    y = sa.subsample_array(x, step, pad=c['pad'],
                                           mode=c['mode'])
                    if any(a >= b for a, b in zip(step, sh)):
                        rec.ev('exc', t='step size not rejected')
                        return
                except ValueError:
                    if any(a >= b for a, b in zip(step, sh)):
                        return      # documented rejection
                    raise
                d = dict(out=arr(y), step=step, pad=c['pad'], mode=c['mode'])
            elif op == 'ext':
                img = x
                if c['tuple'] and len(sh) > c['nb']:
                    img = tuple(x[..., k] for k in range(sh[-1]))
                d = dict(out=arr(sa.extract_blocks(img, blk, sarg)), blk=blk,
                         stp=stp)
            elif op in ('avg', 'comb'):
                cnt = [(s - b) // t + 1 for s, b, t in zip(sh, blk, stp)] + \
                    list(sh[len(blk):])
                nbk = int(np.prod(cnt))
                vals = np.resize(np.array(c['v']), int(np.prod(blk)) * nbk)
                b = layout(vals.reshape(blk + (nbk,)).astype(dt), c['lay'])
                x, x0 = b, b.copy()
                if op == 'avg':
                    y = sa.average_blocks(b, sh, sarg)
                else:
                    fn = {'median': np.median, 'mean': np.mean,
                          'max': lambda q: max(q) if len(q) else np.nan,
                          'len': len}[c['fn']]
                    y = sa.combine_blocks(b, sh, sarg, fn)
                d = dict(out=arr(y, 1024), isz=sh, stp=stp, fn=c['fn'])
            elif op == 'round':
                b = sa.extract_blocks(x, blk, sarg)
                d = dict(out=arr(sa.average_blocks(b, sh, sarg), 1024),
                         out2=arr(sa.combine_blocks(b, sh, sarg), 1024),
                         blk=blk, stp=stp)
            elif op == 'tpl':
                m = max(1, c['n'])
                NT = collections.namedtuple('Nt%d' % m,
                                            ['f%d' % j for j in range(m)])
                rows = [c['v'][m * i:m * i + m] for i in range(c['nb'] + 1)]
                lst = [NT(*r) for r in rows]
                tp = sa.transpose_ntpl_list(lst)
                back = [[int(col[i]) for col in tp]
                        for i in range(len(lst))]
                one = sa.array2ntpl(sa.ntpl2array(lst[0]))
                d = dict(rows=rows, back=back, fields=list(lst[0]._fields),
                         bfields=list(tp._fields), name='Nt%d' % m,
                         bname=type(tp).__name__,
                         cols=[[int(v) for v in col] for col in tp],
                         single=[int(v) for v in one],
                         empty=sa.transpose_ntpl_list([]) is None and
                         one._fields == lst[0]._fields and
                         type(one).__name__ == 'Nt%d' % m)
                x = x0 = np.zeros(1)
            elif op == 'promote':
                dts = ['float16', 'float32', 'float64'][c['n'] % 3]
                z = x.astype(dts)
                seen = []

                def fn(a, b):
                    seen.append(str(a.dtype))
                    return (a, a * b) if c['pad'] else a * b
                r = sa.promote16(z, fn, 2)
                r1 = r[1] if c['pad'] else r
                up = sa.promote16(z)
                d = dict(dt=dts, up=str(up.dtype), seen=seen[0],
                         fdt=str(r1.dtype), out=arr(r1 / 2))
                x0 = x.copy()
            d.setdefault('x', arr(x))
            rec.ev('op', op=op, pure=bool(np.array_equal(x, x0)), **d)
        except Exception as e:
            rec.ev('exc', t=repr(e))

    with open(os.environ['VERIF_SCN']) as f:
        scn = json.load(f)
    for n, sc in enumerate(scn):
        run('%s%d' % (sc['s']['op'], n), sc['s'])
