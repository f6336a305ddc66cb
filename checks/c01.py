"""C01: option trees (spec/OptTree.tla)."""
import copy
import itertools
import json
import os
import pickle


def models(tier):
    if tier == 'quick':
        return [{'module': 'OptTree', 'cfg': 'OptTree.cfg'}]
    return [{'module': 'OptTree', 'workers': 8, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANTS MaxOps = 6\n Vals = {1, 2}\n'
             'INVARIANTS LastWriteWins ShapeFixed\nPROPERTY Isolation\n'
             'CHECK_DEADLOCK FALSE\n'}]


def generators(tier, seed):
    cfg = ('SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANT Emit\n'
           'CHECK_DEADLOCK FALSE\n')
    n = 500 if tier == 'quick' else 3000
    return [{'module': 'OptTreeGen', 'cfg': cfg % 9, 'workers': 1,
             'extra': ('-simulate', 'num=%d' % n, '-depth', '11', '-seed',
                       str(seed))}]


_ids = {}


def vid(v):
    """Interned value identity."""
    if v is None or isinstance(v, (bool, int, float, str)):
        k = (type(v).__name__, repr(v))
    else:
        k = ('obj', type(v).__name__)
    return _ids.setdefault(k, len(_ids))


def flat(o, pre=''):
    """Flatten any tree of dicts (the projection of an option object)."""
    r = {}
    for k in dict.keys(o):
        v = dict.__getitem__(o, k)
        if isinstance(v, dict):
            r.update(flat(v, pre + k + '.'))
        else:
            r[pre + k] = vid(v)
    return r


def nodes(o, pre=''):
    r = []
    for k in dict.keys(o):
        v = dict.__getitem__(o, k)
        if isinstance(v, dict):
            r.append(pre + k)
            r += nodes(v, pre + k + '.')
    return r


def nest(asg):
    """Nested dict from [(path, value)]."""
    d = {}
    for p, v in asg:
        ks = p.split('.')
        c = d
        for k in ks[:-1]:
            c = c.setdefault(k, {})
        c[ks[-1]] = v
    return d


class Driver(object):

    def __init__(self, rec, key, make, couple):
        self.rec = rec
        self.make = make
        self.obj = {}
        f = make({})
        self.dflt = flat(f)
        self.nodes = nodes(f)
        self.f0 = f
        rec.trace(key, judge='OptTreeTrace', leaves=self.dflt,
                  nodes=self.nodes, couple=couple, T=vid(True), F=vid(False))

    def obs(self):
        return {i: flat(o) for i, o in self.obj.items()}

    def asg(self, a):
        return [dict(p=p, v=vid(v)) for p, v in a]

    def new(self, i, a):
        exc = ''
        try:
            self.obj[i] = self.make(nest(a))
        except Exception as e:
            exc = type(e).__name__
        self.rec.ev('new', i=i, asg=self.asg(a), exc=exc, obs=self.obs())
        return exc == ''

    def set(self, i, a, how, cpl=True):
        exc = ''
        try:
            o = self.obj[i]
            if how == 'path':
                p, v = a[0]
                ks = tuple(p.split('.'))
                o[ks if len(ks) > 1 else ks[0]] = v
            elif how == 'tuple':
                o[tuple(a[0][0].split('.'))] = a[0][1]
            elif how == 'chain':
                p, v = a[0]
                ks = p.split('.')
                for k in ks[:-1]:
                    o = o[k]
                o[ks[-1]] = v
            elif how == 'mixed':
                p, v = a[0]
                ks = p.split('.')
                if len(ks) > 2:
                    o[ks[0]][tuple(ks[1:])] = v
                else:
                    o[tuple(ks)] = v
            elif how == 'upd':
                o.update(nest(a))
            elif how == 'sub':
                d = nest(a)
                k = list(d)[0]
                o[k] = d[k]
        except Exception as e:
            exc = type(e).__name__
        self.rec.ev('set', i=i, asg=self.asg(a), exc=exc, obs=self.obs(),
                    cpl=cpl)

    def get(self, i, p, how='tuple'):
        exc, v = '', -1
        try:
            o = self.obj[i]
            if how == 'tuple':
                r = o[tuple(p.split('.'))]
            else:
                for k in p.split('.'):
                    o = o[k]
                r = o
            v = -2 if isinstance(r, dict) else vid(r)
        except Exception as e:
            exc = type(e).__name__
        self.rec.ev('get', i=i, p=p, exc=exc, v=v)

    def clone(self, i, j, how):
        exc = ''
        try:
            if how == 'copy':
                self.obj[j] = copy.deepcopy(self.obj[i])
            else:
                self.obj[j] = pickle.loads(pickle.dumps(self.obj[i]))
        except Exception as e:
            exc = type(e).__name__
        self.rec.ev('clone', i=i, j=j, exc=exc, obs=self.obs())

    def fresh(self):
        try:
            self.rec.ev('fresh', c=flat(self.make({})), obs=self.obs())
        except Exception as e:
            self.rec.ev('exc', t=repr(e))


# option class used with generated histories; module level for pickling
def mkclass():
    from sporco.cdict import ConstrainedDict

    class TreeOpt(ConstrainedDict):
        defaults = {'A': 0, 'B': {'C': 10, 'D': {'E': 20, 'F': {'G': 30},
                                                 'I': None}}, 'H': 'x'}

        def __init__(self, opt=None):
            super(TreeOpt, self).__init__({} if opt is None else opt)
    TreeOpt.__qualname__ = 'TreeOpt'
    TreeOpt.__module__ = __name__
    globals()['TreeOpt'] = TreeOpt
    return TreeOpt


def generated(rec):
    cls = mkclass()
    with open(os.environ['VERIF_SCN']) as f:
        scn = json.load(f)
    for n, sc in enumerate(scn):
        d = Driver(rec, 'tree%d' % n, cls, False)
        for st in sc['s']:
            i = str(st['i'])
            j = str(3 - st['i'])
            a = [(x['p'], x['v']) for x in st['asg']]
            k = st['k']
            if k in ('new', 'newbad'):
                d.new(i, a)
            elif i not in d.obj:
                continue
            elif k in ('path', 'pathbad'):
                d.set(i, a, 'tuple' if n % 2 else 'path')
            elif k == 'chain':
                d.set(i, a, 'chain')
            elif k in ('upd', 'updbad'):
                d.set(i, a, 'upd')
            elif k == 'sub':
                d.set(i, a, 'sub')
            elif k == 'get':
                d.get(i, a[0][0], 'tuple' if n % 3 else 'chain')
            elif k in ('copy', 'pickle'):
                d.clone(i, j, k)
            elif k == 'fresh':
                d.fresh()


def option_classes():
    """Every option class of the package, found by introspection."""
    import importlib
    import pkgutil
    import sporco
    import sporco.cdict as cd
    res = {}
    import sporco.admm, sporco.pgm, sporco.dictlrn  # noqa: E401
    for pk in (sporco.admm, sporco.pgm, sporco.dictlrn):
        for m in pkgutil.iter_modules(pk.__path__):
            mod = importlib.import_module(pk.__name__ + '.' + m.name)
            for nm in sorted(vars(mod)):
                c = getattr(mod, nm)
                if isinstance(c, type) and c.__module__ == mod.__name__ and \
                        isinstance(getattr(c, 'Options', None), type) and \
                        issubclass(c.Options, cd.ConstrainedDict):
                    res[pk.__name__[7:] + '.' + m.name + '.' + nm] = c.Options
    return res


# Classes with the option AuxVarObj for which setting it is documented to set
# fEvalX/gEvalY: all but the two-block solvers, which consult it directly.
UNCOUPLED = ('ADMMTwoBlockCnstrnt', 'MinL1InL2Ball', 'ConvBPDNMaskDcpl',
             'ConvL1L1Grd', 'ConvMinL1InL2Ball', 'ConvTwoBlockCnstrnt',
             'ConvProdDictL1L1Grd', 'ConvProdDictL1L1GrdJoint')


def coupled(name, dflt):
    return 'AuxVarObj' in dflt and name.split('.')[-1] not in UNCOUPLED


def classes(rec):
    cl = option_classes()
    rec.meta.setdefault('notes', {})['option_classes'] = len(cl)
    import sporco.dictlrn.cbpdndl as dl
    import sporco.dictlrn.cbpdndlmd as dm
    makers = {k: v for k, v in cl.items()}
    for x in ('admm', 'pgm'):
        for dd in ('ism', 'cg', 'cns', 'pgm'):
            makers['dictlrn.cbpdndl(%s,%s)' % (x, dd)] = (
                lambda o, x=x, dd=dd: dl.ConvBPDNDictLearn.Options(
                    o, xmethod=x, dmethod=dd))
        for dd in ('ism', 'cg', 'cns', 'pgm'):
            try:
                dm.ConvBPDNMaskDictLearn.Options({}, xmethod=x, dmethod=dd)
            except Exception:
                continue
            makers['dictlrn.cbpdndlmd(%s,%s)' % (x, dd)] = (
                lambda o, x=x, dd=dd: dm.ConvBPDNMaskDictLearn.Options(
                    o, xmethod=x, dmethod=dd))
    for name in sorted(makers):
        mk = makers[name]
        try:
            flat(mk({}))
        except Exception as e:
            rec.trace(name, judge='OptTreeTrace', leaves={'x': 0}, nodes=[],
                      couple=False, T=vid(True), F=vid(False))
            rec.ev('exc', t=repr(e))
            continue
        cp = coupled(name, flat(mk({})))
        d = Driver(rec, name, mk, cp)
        leaves = sorted(d.dflt)
        d.new('1', [])
        d.new('2', [(leaves[0], 'q')])
        for n, p in enumerate(leaves):
            hows = ['path', 'chain', 'upd', 'mixed', 'sub', 'tuple']
            h = hows[n % 6]
            ks = p.split('.')
            if ks[-1] in ('AuxVarObj', 'fEvalX', 'gEvalY'):
                if len(ks) > 1:
                    continue
                h = 'path' if n % 2 else 'upd'
                d.set('1', [(p, bool(n % 2))], h)
            else:
                d.set('1', [(p, 1000 + n)], h)
            if n % 7 == 0:
                d.get('1', p)
        if cp:
            for v in (False, True):
                d.set('2', [('AuxVarObj', v)], 'path')
                d.new('3', [('AuxVarObj', v)])
        for n, nd in enumerate([''] + d.nodes):
            pre = nd + '.' if nd else ''
            d.set('2', [(pre + 'NoSuchKey', 1)], 'path')
            d.set('2', [(pre + 'NoSuchKey', 1)], 'upd')
            d.new('4', [(pre + 'NoSuchKey', 1)])
            d.set('2', [(pre + 'maxmainiter', 1)], 'upd')
            d.get('2', pre + 'NoSuchKey')
            if nd:
                d.set('2', [(nd, 3)], 'path')
                d.set('2', [(nd, None)], 'upd')
                d.new('4', [(nd, 3)])
        # several valid entries in one construction
        some = [p for p in leaves if p.split('.')[-1] not in
                ('AuxVarObj', 'fEvalX', 'gEvalY')]
        d.new('5', [(p, 2000 + i) for i, p in enumerate(some[::2])])
        d.new('6', [(p, 3000 + i) for i, p in enumerate(some)])
        d.clone('5', '7', 'copy')
        d.set('7', [(some[0], 5)], 'path')
        d.set('5', [(some[-1], 6)], 'upd')
        if '(' not in name and 'prlcnscdl' not in name:
            try:
                pickle.dumps(d.f0)
                pk = True
            except Exception:
                pk = False
            if pk:
                d.clone('6', '8', 'pickle')
                d.set('8', [(some[-1], 7)], 'upd')
                d.set('8', [('NoSuchKey', 7)], 'upd')
        if cp:
            # copies keep the flags that AuxVarObj sets, whatever their values
            for q, (a, f, g) in enumerate(itertools.product(
                    (False, True), repeat=3)):
                d.new('1', [('AuxVarObj', a)])
                d.set('1', [('fEvalX', f)], 'path')
                d.set('1', [('gEvalY', g)], 'upd')
                d.clone('1', '9', 'pickle' if q % 2 and '(' not in name and
                        'prlcnscdl' not in name and pk else 'copy')
                d.get('9', 'fEvalX')
        d.fresh()
        # creating objects of other classes / methods in between
        for other in (sorted(makers)[::5]):
            try:
                makers[other]({})
            except Exception:
                pass
        d.set('1', [(some[0], 8)], 'upd')
        d.fresh()


def harness(rec):
    generated(rec)
    classes(rec)
