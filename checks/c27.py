"""Image collections (sporco.util.ExampleImages) and example dictionaries."""
import json
import os


def models(tier):
    return [{'module': 'ImgMC', 'workers': 4, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANTS Unit Replicates '
             'GrayLinear GrayAgain CropFirst\nCHECK_DEADLOCK FALSE\n'
             % (2 if tier == 'quick' else 3)}]


def generators(tier, seed):
    n = int(os.environ.get('VERIF_N') or (600 if tier == 'quick' else 5000))
    return [{'module': 'ImgGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 37 + 2))}]


def harness(rec):
    import shutil
    import tempfile
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    import imageio
    import scipy.ndimage as sn
    from sporco import util
    top = tempfile.mkdtemp(prefix='c27')
    cwd = os.getcwd()

    def pix(a):
        a = np.asarray(a, dtype=np.float64)
        if a.ndim == 2:
            a = a[..., np.newaxis]
        return a

    def fixed(a, s):
        return [[[int(round(v * s)) for v in q] for q in r] for r in a]

    def wts(n, z):
        return [[int(round(v * 10**4)) for v in r] for r in
                sn.zoom(np.eye(n), (z, 1), output=np.float64)]

    def kw(s):
        r = {}
        for k in ('scaled', 'gray'):
            if s[k] != 'none':
                r[k] = s[k] == 'yes'
        if s['dtype'] != 'none':
            r['dtype'] = getattr(np, s['dtype'])
        if s['zoom']:
            r['zoom'] = s['zoom'] / 10.0
        return r

    def scen(c, k):
        base = os.path.join(top, 's%d' % k)
        os.mkdir(base)
        files = []
        for i, f in enumerate(c['files']):
            d = os.path.join(base, f['dir'])
            os.makedirs(d, exist_ok=True)
            r = np.random.RandomState(f['seed'])
            name = 'f%d%s' % (i, f['ext'])
            p = os.path.join(d, name)
            img = None
            if f['kind'] in ('rgb', 'gray'):
                sh = (f['nr'], f['nc']) + ((3,) if f['kind'] == 'rgb' else ())
                img = r.randint(0, 256, sh).astype(np.uint8)
                imageio.v3.imwrite(p, img)
            elif f['kind'] == 'text':
                name = 'f%d.txt' % i
                with open(os.path.join(d, name), 'w') as h:
                    h.write('This is not an image\n' * 20)
            elif f['kind'] == 'fake':
                with open(p, 'w') as h:
                    h.write('This is not an image\n' * 20)
            else:
                with open(p, 'w') as h:
                    pass
            files.append(dict(dir=f['dir'], name=name, image=img is not None,
                              img=img))
        st = c['style']
        pth = {'plain': base, 'slash': base + '/', 'dot': './s%d' % k,
               'rel': 's%d' % k}[st]
        ei = util.ExampleImages(pth=pth, **kw(c['obj']))
        g = ei.groups()
        o = c['obj']
        rec.ev('list', obj=dict(o), images=list(ei.images()), groups=list(g),
               members=[list(ei.groupimages(x)) for x in g],
               files=[{q: f[q] for q in ('dir', 'name', 'image')}
                      for f in files])
        for q in c['calls']:
            f = files[q['f'] - 1]
            s = q['set']
            nm = f['name']
            a = dict(kw(s))
            if q['how'] == 'missing' or f['img'] is None:
                try:
                    ei.image('none.png' if q['how'] == 'missing' else nm,
                             group=f['dir'] or None, **a)
                    r = False
                except IOError:
                    r = True
                rec.ev('missing', ioerror=r)
                continue
            nr, nc = f['img'].shape[:2]
            crop = []
            if q['crop']:
                crop = [q['r0'], max(nr - q['r1'] + 1, q['r0'] + 1),
                        q['c0'], max(nc - q['c1'] + 1, q['c0'] + 1)]
                a['idxexp'] = np.s_[crop[0]:crop[1], crop[2]:crop[3]]
            z = s['zoom'] or o['zoom']
            n1, n2 = (crop[1] - crop[0], crop[3] - crop[2]) if crop else \
                (nr, nc)
            if z == 5 and min(n1, n2) < 2:
                continue
            if q['how'] == 'group' and f['dir']:
                a['group'] = f['dir']
            else:
                nm = os.path.join(f['dir'], nm)
            try:
                out = ei.image(nm, **a)
                found = True
            except IOError:
                out, found = np.zeros((1, 1)), False
            scl = s['scaled'] == 'yes' or (s['scaled'] == 'none' and
                                           o['scaled'] == 'yes')
            rec.ev('image', set=dict(s), crop=crop, found=found,
                   pix=fixed(pix(f['img']), 100), dtype=str(out.dtype),
                   W=wts(n1, z / 10.0) if z else [],
                   V=wts(n2, z / 10.0) if z else [], ndim=out.ndim,
                   out=fixed(pix(out), 10**6 if scl else 100))
        shutil.rmtree(base)

    try:
        os.chdir(top)
        with open(os.environ['VERIF_SCN']) as f:
            scn = [s['s'] for s in json.load(f)]
        for k, c in enumerate(scn):
            rec.trace('img-%d' % k, judge='ImgTrace', shards=4)
            try:
                scen(c, k)
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'):
                    import traceback
                    traceback.print_exc()
                rec.ev('exc', t=repr(e))
        # data of the package
        rec.trace('package', judge='ImgTrace', shards=4)
        pth = os.path.join(os.path.dirname(util.__file__), 'data')
        none = dict(scaled='none', dtype='none', zoom=0, gray='none')
        ei = util.ExampleImages()
        fl = []
        for n in sorted(os.listdir(pth)):
            with open(os.path.join(pth, n), 'rb') as h:
                fl.append(dict(dir='', name=n,
                               image=h.read(4) == b'\x89PNG'))
        rec.ev('list', obj=none, images=list(ei.images()),
               groups=ei.groups(), files=fl,
               members=[list(ei.groupimages(x)) for x in ei.groups()])
        cd = util.convdicts()
        for nm in sorted(cd):
            sz = [[int(v) for v in t.split('x')] for t in
                  nm.split(':')[1].split(',')]
            named = [max(t[i] for t in sz) for i in range(len(sz[0]) - 1)] + [
                sum(t[-1] for t in sz)]
            a = cd[nm].copy()
            cd[nm][...] = 0
            rec.ev('dict', shape=list(a.shape), named=named,
                   fresh=bool(np.array_equal(util.convdicts()[nm], a)
                              and np.any(a)))
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)
