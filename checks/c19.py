"""Isolation of solver objects: what an object computes depends only on its
inputs and on the operations applied to it."""
import json
import os


def models(tier):
    k = 4 if tier == 'quick' else 5
    cfg = ('SPECIFICATION Spec\nCONSTANT NObj = 3\nCONSTANT MaxOps = %d\n'
           'CONSTANT Leak = FALSE\nINVARIANTS Function NonInterference\n'
           'CHECK_DEADLOCK FALSE\n' % k)
    return [{'module': 'IsoMC', 'workers': 4, 'timeout': 3000, 'cfg': cfg}]


def generators(tier, seed):
    from checks import isolib as il
    n = int(os.environ.get('VERIF_N') or (1300 if tier == 'quick' else 4000))
    return [{'module': 'IsoGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nCONSTANT NNames = %d\nINVARIANT Emit\n'
             'CHECK_DEADLOCK FALSE\n' % len(il.NAMES),
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 13 + 3))}]


def harness(rec):
    import copy
    import pickle
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    from checks import isolib as il
    from sporco import cdict
    import sporco.fft
    sporco.fft.pyfftw_threads = 1
    sporco.fft.pyfftw_planner_effort = 'FFTW_ESTIMATE'
    from vlib.core import fx
    with open(os.environ['VERIF_SCN']) as f:
        scn = [s['s'] for s in json.load(f)]

    def proj(x):
        if isinstance(x, (tuple, list)):
            return sum((proj(v) for v in x), [])
        if x is None:
            return [0]
        a = np.asarray(x)
        v = a.ravel()
        i = np.linspace(0, max(v.size - 1, 0), 8).astype(int)
        w = [a.size] + [fx(q, 4096) for q in v[i].real] if v.size else [0]
        if v.size:
            w += [fx(np.abs(v).sum(), 4096)]
        return w

    def observe(b, res):
        o = proj(res)
        for nm in ('k', 'j', 'rho', 'L', 'mu'):
            if hasattr(b, nm):
                q = getattr(b, nm)
                if isinstance(q, (int, float, np.floating)):
                    o.append(fx(q, 1 if nm in 'kj' else 256))
        its = getattr(b, 'itstat', None)
        if its:
            o.append(len(its))
            o += [0 if v is None else fx(v, 256)
                  for f, v in zip(its[-1]._fields, its[-1]) if f != 'Time']
        return o

    def same(a, b):
        if isinstance(a, dict):
            return isinstance(b, dict) and list(a) == list(b) and \
                all(same(a[k], b[k]) for k in a)
        if isinstance(a, np.ndarray):
            return isinstance(b, np.ndarray) and a.dtype == b.dtype and \
                np.array_equal(a, b)
        if isinstance(a, (list, tuple)):
            return type(a) == type(b) and len(a) == len(b) and \
                all(same(x, y) for x, y in zip(a, b))
        return a is b or (type(a) == type(b) and (
            a == b or hasattr(a, '__dict__')))

    def snap(d):
        if isinstance(d, dict):
            return {k: snap(v) for k, v in d.items()}
        if isinstance(d, np.ndarray):
            return d.copy()
        return d

    def like(a, b):
        """options tree a has the content of snapshot b"""
        if isinstance(b, dict):
            return isinstance(a, dict) and set(a) == set(b) and \
                all(like(a[k], b[k]) for k in b)
        return same(a, b)

    def other(i):
        """other activity in the process"""
        import sporco.fft
        np.random.seed(i)
        np.random.rand(3)
        nm = il.NAMES[(7 * i + 3) % len(il.NAMES)]
        g = il.build(nm, i % 4)
        o = g.optf()
        if 'MaxMainIter' in o:
            o['MaxMainIter'] = 7
        b = g.ctor(o)
        (g.step or (lambda b: b.solve()))(b)

    def query(b, solved):
        for nm in ('getmin', 'getcoef', 'getdict', 'getitstat',
                   'reconstruct', 'var_x', 'var_y', 'var_u',
                   'solution_string'):
            f = getattr(b, nm, None)
            if callable(f):
                try:
                    f()
                except (AttributeError, TypeError, NotImplementedError):
                    pass
                except Exception:
                    # some results do not exist before the first solve
                    if solved:
                        raise

    only = os.environ.get('VERIF_CLS')

    def act(g, b, op):
        if op == 'solve':
            return (g.step or (lambda b: b.solve()))(b)
        b.setdict(g.dicts[int(op[-1]) - 1])
        return None

    def norm(g, b, op):
        return op if op == 'solve' or (g.dicts and hasattr(b, 'setdict')) \
            else 'solve'

    def alone(nm, v, own):
        """the same history in a process in which nothing else happens"""
        g = il.build(nm, v)
        b = g.ctor(g.opt)
        out = [['new', '', observe(b, None)]]
        for op in own:
            op = norm(g, b, op)
            out.append(['op', op, observe(b, act(g, b, op))])
        return out

    def references():
        """run every history alone, each in its own child of this process,
        which has not created any solver object yet"""
        import tempfile
        req = []
        for c in scn:
            for j, q in enumerate('ab'):
                r = (il.NAMES[c[q]['n'] - 1], c[q]['v'], tuple(c['own'][j]))
                if r not in req:
                    req.append(r)
        req = {r: i for i, r in enumerate(dict.fromkeys(req))
               if not only or r[0] in only.split(',')}
        res, running = {}, {}
        with tempfile.TemporaryDirectory() as tmp:
            todo = list(req.items())

            def reap():
                pid, _ = os.wait()
                running.pop(pid, None)
            for r, i in todo:
                while len(running) >= 6:
                    reap()
                pid = os.fork()
                if pid == 0:
                    try:
                        x = alone(*r)
                        with open('%s/%d.tmp' % (tmp, i), 'w') as f:
                            json.dump(x, f)
                        os.rename('%s/%d.tmp' % (tmp, i),
                                  '%s/%d' % (tmp, i))
                    finally:
                        os._exit(0)
                running[pid] = r
            while running:
                reap()
            for r, i in todo:
                try:
                    with open('%s/%d' % (tmp, i)) as f:
                        res[r] = json.load(f)
                except OSError:
                    res[r] = None
        return res
    il.build(il.NAMES[0], 0)    # imports, but constructs no solver object
    refs = references()
    for k, c in enumerate(scn):
        nms = [il.NAMES[c[q]['n'] - 1] for q in 'ab']
        if only and not set(nms) & set(only.split(',')):
            continue
        rec.trace('iso-%d %s' % (k, ' '.join(nms)), judge='IsoTrace', shards=4)
        try:
            key = ['%s/%d' % (nm, c[q]['v']) for nm, q in zip(nms, 'ab')]
            base = [il.build(nm, c[q]['v']) for nm, q in zip(nms, 'ab')]
            if key[0] == key[1]:
                base[1] = base[0]
            snaps = [[x.copy() for x in g.arrays + g.dicts] for g in base]
            osn = [snap(g.opt) for g in base]
            objs, cfgs, opts, nxt, orphan = {}, {}, {}, [0] * 4, []

            def pure(g):
                return all(np.array_equal(x, y) and x.dtype == y.dtype
                           for x, y in zip(g.arrays + g.dicts,
                                           snaps[base.index(g)]
                                           if g in base else
                                           snaps[[h.name for h in base]
                                                 .index(g.name)]))
            for g, q in zip(base, key):
                g.name = q

            def emit(e, i, op, res):
                g = cfgs[i]
                kw = dict(i=i, o=observe(objs[i], res), pure=pure(g),
                          opure=like(opts[i], osn[
                              [h.name for h in base].index(g.name)]))
                if e == 'new':
                    rec.ev('new', cfg=g.name, **kw)
                else:
                    rec.ev('op', op=op, **kw)

            for j, q in enumerate('ab'):
                r = refs.get((nms[j], c[q]['v'], tuple(c['own'][j])))
                for e, op, o in r or []:
                    rec.ev(e, i=10 + j, o=o, pure=True, opure=True,
                           cfg=key[j], op=op)
            t = 0
            while any(nxt[i] <= len(c['own'][i % 2]) for i in range(4)) \
                    and t < 200:
                i = (c['order'][t % 40] - 1 + t // 40) % 4
                ex = c['extra'][t % 40]
                t += 1
                own = c['own'][i % 2]
                if nxt[i] > len(own):
                    continue
                if nxt[i] == 0:
                    g = base[i % 2]
                    if not c['sharedata']:
                        q = il.build(nms[i % 2], c['ab'[i % 2]]['v'])
                        q.name = g.name
                        g = q
                    opts[i] = g.opt if c['shareopt'] else g.optf()
                    cfgs[i] = g
                    objs[i] = g.ctor(opts[i])
                    emit('new', i, '', None)
                    nxt[i] = 1
                    continue
                nm = nms[i % 2]
                if ex == 'other':
                    other(k + t)
                elif ex == 'query':
                    query(objs[i], 'solve' in own[:nxt[i] - 1])
                elif ex == 'store' and nm not in il.NOPICKLE:
                    objs[i] = pickle.loads(pickle.dumps(objs[i]))
                elif ex == 'copy' and nm not in il.NOPICKLE:
                    old = objs[i]
                    objs[i] = copy.deepcopy(old)
                    (cfgs[i].step or (lambda b: b.solve()))(old)
                op = own[nxt[i] - 1]
                op = norm(cfgs[i], objs[i], op)
                emit('op', i, op, act(cfgs[i], objs[i], op))
                nxt[i] += 1
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
            rec.ev('exc', t='%s %s %r' % (nms, ex if 't' in dir() else '',
                                          e))

    # Parallel solvers: one object at a time (each is created after the
    # previous one was last used), and two objects at the same time (a known
    # finding: their working arrays are module globals)
    from sporco.admm import parcbpdn
    from sporco.dictlrn import prlcnscdl as pc

    def par(nm, i):
        r = np.random.RandomState(i)
        D, S = r.randn(3, 3, 4), r.randn(8, 7, 2)
        W = (r.rand(8, 7, 1, 2, 1) > 0.3) * 1.0
        o = {'MaxMainIter': 2}
        if nm == 'ParConvBPDN':
            cls, a, kw = parcbpdn.ParConvBPDN, (D, S[..., 0], 0.1), {}
        elif nm == 'ConvBPDNDictLearn_Consensus':
            cls, a, kw = pc.ConvBPDNDictLearn_Consensus, (D, S, 0.1), {}
        else:
            cls = pc.ConvBPDNMaskDcplDictLearn_Consensus
            a, kw = (D, S, 0.1, W), {}
        opt = cls.Options(o)
        sn = ([x.copy() for x in a if isinstance(x, np.ndarray)], snap(opt))
        b = cls(*a, opt=opt, nproc=2, **kw)

        def ok():
            return dict(pure=all(np.array_equal(x, y) for x, y in zip(
                [x for x in a if isinstance(x, np.ndarray)], sn[0])),
                opure=like(opt, sn[1]))
        return b, ok
    for nm in ('ParConvBPDN', 'ConvBPDNDictLearn_Consensus',
               'ConvBPDNMaskDcplDictLearn_Consensus'):
        if only and nm not in only.split(','):
            continue
        for mode in ('sequential', 'concurrent'):
            rec.trace('par %s %s' % (nm, mode), judge='IsoTrace', shards=4)
            ex = ''
            try:
                obj = {}
                # cfg number of each object; object 4 = creation only
                plan = {'sequential': 'n1 s1 s1 n2 s2 n3 s3 s3 n4 s4',
                        'concurrent': 'n1 s1 s1 n2 n3 s2 s3 s2'}[mode]
                cf = {1: 1, 2: 2, 3: 1, 4: 2} if mode == 'sequential' else \
                    {1: 1, 2: 1, 3: 2}
                for st in plan.split():
                    i = int(st[1])
                    if st[0] == 'n':
                        obj[i] = par(nm, cf[i])
                        rec.ev('new', i=i, cfg='%d' % cf[i],
                               o=observe(obj[i][0], None), **obj[i][1]())
                    else:
                        x = obj[i][0].solve()
                        rec.ev('op', op='solve', i=i,
                               o=observe(obj[i][0], x), **obj[i][1]())
            except Exception as e:
                rec.ev('exc', t='%s %r' % (nm, e))
