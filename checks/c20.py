"""Iteration statistics and status display of the iterative solvers."""
import json
import os

EXTRA = ['ParConvBPDN', 'PrlCns', 'PrlCnsMask']


def models(tier):
    return [{'module': 'StatMC', 'workers': 4, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANT MaxW = %d\nINVARIANTS Layout '
             'RowFits Shift Reads\nCHECK_DEADLOCK FALSE\n'
             % (4 if tier == 'quick' else 6)}]


def generators(tier, seed):
    from checks import isolib as il
    n = 1500 if tier == 'quick' else 8000
    return [{'module': 'StatGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nCONSTANT NNames = %d\nINVARIANT Emit\n'
             'CHECK_DEADLOCK FALSE\n' % (len(il.NAMES) + len(EXTRA)),
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 29 + 4))}]


def harness(rec):
    import contextlib
    import io
    import math
    import struct
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    import sporco.fft
    sporco.fft.pyfftw_threads = 1
    sporco.fft.pyfftw_planner_effort = 'FFTW_ESTIMATE'
    from sporco import common
    from sporco.pgm.pgm import PGM
    from sporco.dictlrn.dictlrn import DictLearn
    from sporco.dictlrn.onlinecdl import OnlineConvBPDNDictLearn
    from checks import isolib as il
    names = il.NAMES + EXTRA
    only = os.environ.get('VERIF_CLS')

    def codes(s):
        return [ord(x) for x in s]

    def num(v):
        """class, sign, eight significant digits, exponent"""
        z = {'c': 'num', 's': 1, 'm': 0, 'e': 0}
        if v is None:
            return dict(z, c='none')
        v = float(v)
        if math.isnan(v):
            return dict(z, c='nan')
        if math.isinf(v):
            return dict(z, c='inf', s=1 if v > 0 else -1)
        if v == 0:
            return z
        m, e = ('%.7e' % abs(v)).split('e')
        return {'c': 'num', 's': -1 if v < 0 else 1,
                'm': int(m.replace('.', '')), 'e': int(e)}

    def bits(v):
        if v is None:
            return []
        return list(struct.unpack('>4H', struct.pack('>d', float(v))))

    def ascii(s):
        for a, b in (('\u2113', 'l'), ('\u03c1', 'rho'), ('\u2207', 'grad'),
                     ('\u03b7', 'eta'), (',', ''), (' ', '')):
            s = s.replace(a, b)
        return s

    def fmt(c):
        n = c['nl']
        wd, fm, lb, vals = [], {}, [], []
        w0 = c['w0'] if not c['dflt'] else 4
        dlt, prec = (c['dlt'], c['prec']) if not c['dflt'] else (6, 2)
        mp = []
        for i in range(n):
            w = c['map'][i]
            k = c['mkind'][i]
            dw = w if w else (w0 if i == 0 else prec + dlt)
            if w and k == 'e':
                w = dw = max(w, 8)
            if w and k == 'f':
                w = dw = max(w, 6)
            s = ''.join(chr(x) for x in c['lab'][i][:min(c['len'][i], dw)])
            while s in lb:
                s = s[:-1] + chr(65 + i)
                if s in lb:
                    s = chr(65 + i)
            lb.append(s)
            if w:
                fm[s] = '%%%d' % w + {'d': 'd', 'e': '.1e', 'f': '.1f'}[k]
            mp.append(w)
            v = c['v'][i]
            if w and k == 'f':
                v = v % 100 + 0.5
            elif w and k == 'd' or i == 0 and not w:
                v = v % (10 ** min(dw, 3))
            elif prec < 5 or dlt > 6:
                v = v * 10.0 ** c['ex'][i]
                if w:
                    v = float('%.1e' % v)
            vals.append(v)
        kw = {} if c['dflt'] else dict(fwdth0=w0, fwdthdlt=dlt, fprec=prec)
        if fm or not c['dflt']:
            kw['fmtmap'] = fm or None
        snap = dict(fm)
        hdr, fs, nsep = common.solve_status_str(tuple(lb), **kw)
        assert fm == snap, 'fmtmap modified'
        rec.ev('fmt', lb=[codes(x) for x in lb], map=mp, w0=w0, dlt=dlt,
               prec=prec, hdr=codes(hdr), nsep=nsep,
               row=codes(fs % tuple(vals)), vals=[num(v) for v in vals])

    def run(c):
        nm = names[c['n'] - 1]
        if nm in EXTRA:
            r = np.random.RandomState(c['var'])
            D, S = r.randn(3, 3, 4), r.randn(7, 8, 2)
            if nm == 'ParConvBPDN':
                from sporco.admm import parcbpdn as m
                cls, a, kw = m.ParConvBPDN, (0.1,), dict(nproc=1, ngrp=2)
                S = S[..., 0]
                kw['dimK'] = 0
            else:
                from sporco.dictlrn import prlcnscdl as m
                kw = dict(nproc=0)
                if nm == 'PrlCns':
                    cls, a = m.ConvBPDNDictLearn_Consensus, (0.1,)
                else:
                    cls, a = m.ConvBPDNMaskDcplDictLearn_Consensus, (
                        0.1, np.ones((7, 8, 2)))
            g = il.Cfg(lambda o: cls(D, S, *a, opt=o, **kw), [D, S],
                       lambda: cls.Options({'MaxMainIter': 2}))
        else:
            g = il.build(nm, c['var'])
        o = g.optf()
        o['Verbose'] = c['verbose']
        o['StatusHeader'] = c['header']
        if c['fast'] and 'FastSolve' in o:
            o['FastSolve'] = True
        if 'MaxMainIter' in o:
            o['MaxMainIter'] = c['iters']
        if 'AutoRho' in o and c['auto'] != 'none':
            o['AutoRho', 'Enabled'] = c['auto'] == 'on'
        xd = []
        if 'DL-' in nm:
            from sporco.pgm import backtrack as pbt
            mk = pbt.BacktrackRobust if c['chg'] else pbt.BacktrackStandard
            p = nm.split('-')
            if p[1] == 'pgm' and c['btx']:
                o['CBPDN', 'Backtrack'] = mk()
                o['CBPDN', 'L'] = 0.5
            if p[2] == 'pgm' and c['btd']:
                o['CCMOD', 'Backtrack'] = mk()
                o['CCMOD', 'L'] = 0.5
        if 'Callback' in o:
            def cb(b):
                if hasattr(b, 'xstep') and hasattr(b.xstep, 'itstat') and \
                        b.xstep.itstat and b.dstep.itstat:
                    xd.append((b.itstat[-1], b.xstep.itstat[-1],
                               b.dstep.itstat[-1]))
            if issubclass_dl(nm):
                o['Callback'] = cb
        out0 = io.StringIO()
        with contextlib.redirect_stdout(out0):
            b = g.ctor(o)
        assert out0.getvalue() == '', 'output during construction'
        st = b.cbpdn if hasattr(b, 'cbpdn') else b
        bt = False
        autorho = False
        if nm.startswith('PrlCns'):
            kind = 'dl'
            fields = b.IterationStats._fields
            hdr = ['Itn', 'Fnc', 'DFid', u'Reg\u21131']
        elif isinstance(b, DictLearn):
            kind = 'dl'
            fields, hdr = b.isc.isfld, b.isc.hdrtxt
        elif isinstance(b, OnlineConvBPDNDictLearn):
            kind = 'online'
            fields, hdr = type(b).IterationStats._fields, type(b).hdrtxt()
        elif isinstance(st, PGM):
            kind = 'pgm'
            bt = st.opt['Backtrack'] is not None
            fields, hdr = type(st).IterationStats._fields, type(st).hdrtxt()
            if not bt:
                hdr = [h for h in hdr if h not in ('F', 'Q', 'It_Bt', 'L')]
        else:
            kind = 'admm'
            autorho = bool(st.opt['AutoRho', 'Enabled'])
            fields, hdr = type(st).IterationStats._fields, type(st).hdrtxt()
            if not autorho:
                hdr = [h for h in hdr if h != u'\u03c1']
        step = g.step or (lambda b: b.solve())
        calls = []
        n0 = 0
        for k in range(c['solves']):
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                if kind == 'online':
                    b.display_start()
                    for _ in range(max(1, c['iters'])):
                        step(b)
                    b.display_end()
                else:
                    step(b)
            t = out.getvalue()
            assert t == '' or t.endswith('\n'), 'incomplete line'
            its = st.itstat
            calls.append({'lines': [codes(x) for x in t.split('\n')[:-1]],
                          'recs': [[num(v) for v in q] for q in its[n0:]]})
            n0 = len(its)
        rec.ev('run', kind=kind, fields=list(fields), autorho=autorho, bt=bt,
               labels=[ascii(h) for h in hdr], lcodes=[codes(h) for h in hdr],
               verbose=c['verbose'], header=c['header'], calls=calls)
        its = st.itstat
        if hasattr(b, 'getitstat'):
            gi = b.getitstat() if its else None
            rec.ev('gis', n=len(its), fields=list(fields),
                   gfields=list(gi._fields) if its else [],
                   cols=[[bits(v) for v in col] for col in gi]
                   if its else [],
                   rows=[[bits(v) for v in q] for q in its],
                   seq=[q.Iter for q in its] == list(range(len(its))))
        for r, x, d in xd[:4]:
            rec.ev('dl', fields=list(r._fields), rec=[bits(v) for v in r],
                   xf=list(x._fields), x=[bits(v) for v in x],
                   df=list(d._fields), d=[bits(v) for v in d],
                   acc=bool(b.opt['AccurateDFid']))

    def issubclass_dl(nm):
        return 'DL-' in nm or nm in ('BPDNDictLearn', 'WeightedBPDNDictLearn')

    with open(os.environ['VERIF_SCN']) as f:
        scn = [s['s'] for s in json.load(f)]
    for k, c in enumerate(scn):
        nm = 'fmt' if c['op'] == 'fmt' else names[c['n'] - 1]
        if only and nm not in only.split(','):
            continue
        rec.trace('%s-%d' % (nm, k), judge='StatTrace', shards=6)
        try:
            (fmt if nm == 'fmt' else run)(c)
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
            rec.ev('exc', t=repr(e))
