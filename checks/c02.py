"""C02: labelled stopwatch semantics (spec/Timer.tla)."""
import json
import os


def models(tier):
    if tier == 'quick':
        return [{'module': 'Timer', 'cfg': 'Timer.cfg'}]
    return [{'module': 'Timer', 'workers': 8, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANTS MaxNow = 6\n MaxOps = 6\n'
             'INVARIANTS TotalIsRunningTime CurrentLeTotal UnknownNeverRuns\n'
             'CHECK_DEADLOCK FALSE\n'}]


def generators(tier, seed):
    cfg = ('SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANT Emit\n'
           'CHECK_DEADLOCK FALSE\n')
    n = 1500 if tier == 'quick' else 12000
    return [{'module': 'TimerGen', 'cfg': cfg % 1, 'workers': 1},
            {'module': 'TimerGen', 'cfg': cfg % 8, 'workers': 1,
             'extra': ('-simulate', 'num=%d' % n, '-depth', '10', '-seed',
                       str(seed))}]


def harness(rec):
    from vlib.fakeclock import CLOCK, install
    import sporco.util as su
    install(su)
    with open(os.environ['VERIF_SCN']) as f:
        scn = json.load(f)

    class Boom(Exception):
        pass

    def num(x):
        x = float(x)
        return int(x) if x == int(x) else -999

    def obs(t, dflt, extra=()):
        o = []
        for lb in ('a', 'b', 'main'):
            try:
                o.append(dict(l=lb, known=True, tot=num(t.elapsed(lb)),
                              cur=num(t.elapsed(lb, total=False))))
            except KeyError:
                o.append(dict(l=lb, known=False, tot=0, cur=0))
        o.extend(extra)
        rows = []
        for ln in str(t).splitlines()[2:]:
            w = ln.split()
            rows.append(dict(l=w[0], acc=num(w[1]),
                             cur=-1 if w[3] == 'Stopped' else num(w[3])))
        return dict(now=int(CLOCK.now), labels=sorted(t.labels()), obs=o,
                    d=dict(tot=num(t.elapsed()),
                           cur=num(t.elapsed(total=False))), rows=rows)

    def arg(a, c, asl):
        if a['kind'] == 'dflt':
            return None
        if a['kind'] == 'all':
            return c['all']
        if a['kind'] == 'one':
            return a['ls'][0]
        return asl(a['ls'])

    for n, sc in enumerate(scn):
        c, h = sc['s']['c'], sc['s']['h']
        rec.trace('hist%d' % n, judge='TimerTrace', **c)
        asl = list if n % 2 else tuple
        CLOCK.now = float(n % 3)
        labs = c['labs']
        t = su.Timer(None if not labs else
                     (labs[0] if len(labs) == 1 and n % 2 else asl(labs)),
                     dfltlbl=c['dflt'], alllbl=c['all'])
        rec.ev('obs', exc='', **obs(t, c['dflt']))
        for st in h:
            CLOCK.now += st['dt']
            op, a = st['o']['op'], st['o']['a']
            v = arg(a, c, asl)
            kw = dict(kind=a['kind'], ls=a['ls'])
            if op in ('start', 'stop', 'reset'):
                exc = ''
                try:
                    if v is None and n % 2:
                        getattr(t, op)()
                    else:
                        getattr(t, op)(v)
                except Exception as e:
                    exc = type(e).__name__
                rec.ev(op, exc=exc, **dict(kw, **obs(t, c['dflt'])))
            else:
                ent, ext = ('start', 'stop') if op.startswith('ctx') else \
                    ('stop', 'start')
                act = 'StartStop' if ent == 'start' else 'StopStart'
                raised, seen = op.endswith('exc'), False
                entered = False

                def ctxobs(cx):
                    lb = c['dflt'] if v is None else v
                    return [dict(l=lb, known=True, tot=num(cx.elapsed()),
                                 cur=num(cx.elapsed(total=False)))]
                try:
                    cx = su.ContextTimer(t, v, action=act)
                    with cx:
                        entered = True
                        rec.ev(ent, exc='',
                               **dict(kw, **obs(t, c['dflt'], ctxobs(cx))))
                        CLOCK.now += 2
                        if raised:
                            raise Boom()
                except Boom:
                    seen = True
                except Exception as e:
                    rec.ev(ext if entered else ent, exc=type(e).__name__,
                           **dict(kw, **obs(t, c['dflt'])))
                    continue
                rec.ev(ext, exc='', **dict(kw, **obs(t, c['dflt'],
                                                     ctxobs(cx))))
                rec.ev('block', raised=raised, seen=seen)
    # default construction of the wrapped timer
    rec.trace('ctxdefault', labs=[], dflt='main', all='all')
    CLOCK.now = 5.0
    cx = su.ContextTimer()
    with cx:
        rec.ev('start', exc='', kind='dflt', ls=[], **obs(cx.timer, 'main'))
        CLOCK.now += 3
    rec.ev('stop', exc='', kind='dflt', ls=[], **obs(
        cx.timer, 'main', [dict(l='main', known=True, tot=num(cx.elapsed()),
                                cur=num(cx.elapsed(total=False)))]))
