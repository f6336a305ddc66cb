"""Figures (sporco.plot): drawn data and reaction to events."""
import json
import os


def models(tier):
    return [{'module': 'FigMC', 'workers': 4, 'timeout': 3000, 'cfg':
             'SPECIFICATION Spec\nCONSTANTS Depth = %d\n Grid = %d\n'
             'INVARIANTS Confined Size Cursor Restore\nCHECK_DEADLOCK FALSE\n'
             % ((4, 8) if tier == 'quick' else (5, 8))}]


def generators(tier, seed):
    n = int(os.environ.get('VERIF_N') or (500 if tier == 'quick' else 4000))
    return [{'module': 'FigGen', 'workers': 1, 'cfg':
             'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
             'extra': ('-simulate', 'num=%d' % n, '-depth', '4', '-seed',
                       str(seed * 31 + 8))}]


def harness(rec):
    os.environ['MPLBACKEND'] = 'Agg'
    import re
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.cm as cm
    import matplotlib.colors as mcolors
    import matplotlib.pyplot as plt
    from matplotlib.backend_bases import MouseEvent, KeyEvent
    from matplotlib.figure import Figure
    from sporco import plot
    # only the handlers of the code under test
    for k in list(plt.rcParams):
        if k.startswith('keymap.'):
            plt.rcParams[k] = []
    plt.rcParams['figure.dpi'] = 50
    plt.rcParams['figure.figsize'] = (3.0, 2.5)
    shown = []
    show0 = Figure.show
    Figure.show = lambda self, *a, **k: shown.append(self)
    S = 10**6

    def H(v):
        """hundredths"""
        return int(round(float(v) * 100))

    def HL(a):
        return [H(v) for v in np.ravel(a)]

    def T(v):
        return int(round(float(v) * 10**4))

    def texts(ax, three=False):
        r = [ax.get_title(), ax.get_xlabel(), ax.get_ylabel()]
        return r + ([ax.get_zlabel()] if three else [''])

    def draw(p, k, c, fig, ax):
        """one plotting call; returns the figure and axes"""
        created = fig is None
        kw = {}
        if created:
            if c['fgsz']:
                kw['fgsz'] = (2.5, 2.0)
            if c['fgnm']:
                kw['fgnm'] = c['fgnm']
        else:
            kw['fig'] = fig
            if ax is not None:
                kw['ax'] = ax
        xt = ['', '', '', '']
        kind = p['kind']
        if p['tl']:
            kw['title'] = xt[0] = 'Title %d' % k
        if kind != 'imview':
            if p['xl']:
                kw['xlbl'] = xt[1] = 'abscissa %d' % k
            if p['yl']:
                kw['ylbl'] = xt[2] = 'ordinate %d' % k
        if kind == 'surf' and p['zl']:
            kw['zlbl'] = xt[3] = 'height %d' % k
        nr, nc = p['nr'], p['nc']
        data = np.array(p['data'])
        n0 = len(shown)
        kw0 = dict(kw)
        ax0 = ax
        naxes0 = 0 if created else len(fig.axes)
        if ax is None and not created and not fig.axes:
            naxes0 = 1
        pos0 = None if ax is None else ax.get_position().bounds
        ev = {}
        if kind == 'plot':
            bad = p['ptyp'] == 'bad'
            y = data[:nr * nc].reshape(nr, nc) / 4.0
            log = p['ptyp'] != 'plot'
            if log:
                y = np.abs(y) + 1
            if p['one']:
                y = y[:, 0].copy()
            x = np.cumsum(np.abs(data[16:16 + nr]) + 1) / 2.0
            args = [y] + ([x] if p['givex'] else [])
            ins = [v.copy() for v in args]
            if p['ptyp'] != 'plot' or p['zl']:
                kw['ptyp'] = p['ptyp']
            if p['lw']:
                kw['linewidth' if p['lwname'] else 'lw'] = float(p['lw'])
            if p['ms']:
                kw['markersize' if p['msname'] else 'ms'] = float(p['ms'])
            y2 = y.reshape(nr, -1)
            lg = []
            if p['lg']:
                lg = kw['lgnd'] = ['curve %d' % j for j in range(y2.shape[1])]
                if p['lwname']:
                    kw['lglc'] = 'upper left'
            nl0 = 0 if ax is None else len(ax.lines)
            if bad:
                try:
                    plot.plot(*args, **kw)
                    r = False
                except ValueError:
                    r = True
                rec.ev('reject', rejected=r)
                return None
            fig, ax = plot.plot(*args, **kw)
            ln = ax.lines[nl0:]
            if nl0 == 0 and lg:
                gl = [t.get_text() for t in ax.get_legend().get_texts()]
            else:
                gl, lg = [], []
            ev = dict(y=[HL(r) for r in y2],
                      x=HL(x) if p['givex'] else [100 * i for i in range(nr)],
                      curves=[[[H(a), H(b)] for a, b in
                               zip(q.get_xdata(), q.get_ydata())] for q in ln],
                      scale=[ax.get_xscale(), ax.get_yscale()],
                      ptyp=p['ptyp'], lw=[H(q.get_linewidth()) for q in ln],
                      ms=[H(q.get_markersize()) for q in ln], glw=p['lw'],
                      gms=p['ms'], legend=gl, glegend=lg)
            three = False
        elif kind in ('contour', 'surf'):
            z = data[:nr * nc].reshape(nr, nc) / 4.0
            if z.min() == z.max():
                z[0, 0] += 1
            x = np.cumsum(np.abs(data[16:16 + nc]) + 1) / 2.0
            y = np.cumsum(np.abs(data[20:20 + nr]) + 1) / 2.0
            if p['givex']:
                kw['x'] = x if not p['one'] else list(x)
            if p['givey']:
                kw['y'] = y
            args = [z]
            ins = [z.copy()]
            gx = HL(x) if p['givex'] else [100 * i for i in range(nc)]
            gy = HL(y) if p['givey'] else [100 * i for i in range(nr)]
            lev = [float(z.min()) + (float(z.max() - z.min())) * t
                   for t in (0.25, 0.5)]
            ev = dict(x=gx, y=gy, z=[HL(r) for r in z])
            if p['cmap']:
                kw['cmap'] = cm.viridis
            if kind == 'contour':
                if p['xlog']:
                    kw['xlog'] = True
                    kw['x'] = x
                    ev['x'] = HL(x)
                if p['ylog']:
                    kw['ylog'] = True
                    kw['y'] = y
                    ev['y'] = HL(y)
                if p['lev']:
                    kw['v'] = lev
                if p['cfmt']:
                    kw['cfmt'] = '%.1f'
                if p['cfnt'] != 10:
                    kw['cfntsz'] = None if p['cfnt'] < 0 else p['cfnt']
                if p['vlim']:
                    kw['vmin'], kw['vmax'] = -2.0, 3.0
                fig, ax = plot.contour(*args, **kw)
                qs = [q for q in ax.collections
                      if type(q).__name__ == 'QuadContourSet'][-1]
                qm = [q for q in ax.collections
                      if type(q).__name__ == 'QuadMesh'][-1]
                co = qm.get_coordinates()
                A = np.asarray(qm.get_array()).reshape(co.shape[:2])
                ev.update(mesh=[[[H(co[i, j, 0]), H(co[i, j, 1]), H(A[i, j])]
                                 for j in range(A.shape[1])]
                                for i in range(A.shape[0])],
                          glev=[T(v) for v in lev] if p['lev'] else [],
                          lev=[T(v) for v in qs.levels],
                          nlab=len(getattr(qs, 'labelTexts', [])),
                          lsz=[H(t.get_fontsize()) for t in
                               getattr(qs, 'labelTexts', [])],
                          cfnt=p['cfnt'], scale=[ax.get_xscale(),
                                                 ax.get_yscale()],
                          xlog=p['xlog'], ylog=p['ylog'],
                          gclim=[-200, 300] if p['vlim'] else [],
                          clim=HL(qm.get_clim()),
                          naxes=len(fig.axes) - max(naxes0, 1))
                three = False
            else:
                if p['el']:
                    kw['elev'] = p['el']
                if p['az']:
                    kw['azim'] = p['az']
                if p['cntr']:
                    kw['cntr'] = lev
                fig, ax = plot.surf(*args, **kw)
                ps = [q for q in ax.collections
                      if type(q).__name__ == 'Poly3DCollection'][0]
                nq = [q for q in ax.collections
                      if type(q).__name__ == 'QuadContourSet3D']
                fc = np.ma.filled(np.asarray(ps._faces), 0)
                ev.update(faces=[[[H(u) for u in v] for v in f] for f in fc],
                          view=[H(ax.elev) if p['el'] else 0,
                                H(ax.azim) if p['az'] else 0],
                          gview=[p['el'] * 100, p['az'] * 100],
                          is3d=ax.name == '3d', cntr=p['cntr'],
                          ncont=len(nq), flat=HL(z),
                          zlo=int(round(ax.get_zlim()[0] * 1000)),
                          place=pos0 is None or np.allclose(
                              ax.get_subplotspec().get_position(fig).bounds,
                              pos0) or not fig.axes)
                three = True
        else:
            rgb = p['rgb']
            sh = (nr, nc) + ((rgb,) if rgb else ())
            d = data[:int(np.prod(sh))].reshape(sh)
            dt = p['dt']
            if d.min() == d.max():
                d.flat[0] += 1
            if dt in ('f4', 'f8'):
                img = (d / 4.0).astype(dt)
                v = d.ravel()
            else:
                sc = {'u1': (7, 112), 'i8': (7, 112), 'u2': (1000, 30000),
                      'i2': (1000, 3)}[dt]
                img = (d * sc[0] + sc[1]).astype(dt)
                if rgb and dt == 'i8':
                    img = img % 256
                v = img.ravel()
            if p['fltscl']:
                kw['fltscl'] = True
            if not p['copy']:
                kw['copy'] = False
            if p['cbar'] != 'no':
                kw['cbar'] = True if p['cbar'] == 'yes' else None
            if p['cmap']:
                kw['cmap'] = cm.viridis
            nrm = None
            if p['norm'] and not rgb:
                nrm = kw['norm'] = mcolors.Normalize(-3.0, 7.0)
            args = [img]
            ins = [img.copy()]
            if rgb == 2:
                try:
                    plot.imview(*args, **kw)
                    r = False
                except ValueError:
                    r = True
                rec.ev('reject', rejected=r)
                return None
            fig, ax = plot.imview(*args, **kw)
            im = ax.images[-1]
            A = np.asarray(im.get_array())
            ev = dict(v=[int(q) for q in v], dt=dt, rgb=bool(rgb),
                      fltscl=p['fltscl'], nr=nr, nc=nc,
                      dims=list(A.shape[:2]),
                      shown_v=[T(q) for q in np.ravel(A)],
                      clim=[T(q) for q in im.get_clim()],
                      norm=nrm is not None, normsame=im.norm is nrm,
                      cmap=im.get_cmap().name,
                      gcmap='viridis' if p['cmap'] else cm.Greys_r.name,
                      intrp=im.get_interpolation(), cbar=p['cbar'],
                      naxes=len(fig.axes) - max(naxes0, 1))
            three = False
        same = (created or fig is kw0.get('fig')) and ax in fig.axes and (
            ax0 is None or ax is ax0 or (three and ax0.name != '3d'))
        figok = True
        if created:
            if c['fgsz']:
                figok = np.allclose(fig.get_size_inches(), (2.5, 2.0))
            if c['fgnm']:
                figok = figok and fig.number == c['fgnm']
        rec.ev(kind, text=texts(ax, three), xtext=xt, same=bool(same),
               shown=len(shown) - n0, created=int(created), figok=bool(figok),
               intact=all(np.array_equal(a, b) and a.dtype == b.dtype
                          for a, b in zip(args, ins)), **ev)
        if kind == 'imview':
            if p['again']:
                args[0][...] = args[0] + 1
                pix = (ins[0] if p['copy'] else args[0])
            else:
                pix = ins[0]
            for x, y in p['coord']:
                x, y = x / 4.0, y / 4.0
                t = ax.format_coord(x, y)
                rec.ev('coord', nr=nr, nc=nc, x=H(x), y=H(y),
                       nums=[H(float(q)) for q in
                             re.findall(r'-?\d+\.\d\d(?!\d)', t)],
                       pix=[[[H(q) for q in np.ravel(pix[i, j])]
                             for j in range(nc)] for i in range(nr)])
            if p['again']:
                A2 = np.asarray(im.get_array())
                assert np.array_equal(A, A2), 'image follows the input'
        return fig, ax

    def scen(c):
        plt.close('all')
        P = c['panel']
        fig, axs = None, []
        mode = c['mode']
        if len(P) > 1:
            fig, a = plt.subplots(1, 2, figsize=(4.0, 2.5))
            given = list(a)
        elif mode == 'new':
            given = [None]
        else:
            fig = plt.figure(figsize=(3.0, 2.5))
            given = [fig.add_subplot(111) if mode == 'ax' else None]
        main = []
        for k, (p, g) in enumerate(zip(P, given)):
            if g is not None and p['inv'] and p['kind'] == 'plot':
                g.invert_xaxis()
            f0 = fig
            r = draw(p, k, c, fig, g)
            if r is None:
                continue
            fig, ax = r
            if f0 is not None:
                assert fig is f0
            if p['again'] and p['kind'] == 'plot':
                q = dict(p, data=[2 * v for v in p['data']], tl=True, xl=True,
                         yl=True)
                r = draw(q, k, c, fig, ax)
                assert r[1] is ax
            main.append((ax, p['kind'] != 'surf'))
        if fig is None or not main:
            return
        fig.canvas.draw()
        if True:
            A = list(fig.axes)
            two = [q for q in A if q.name != '3d']
            ref = {q: (q.get_xlim(), q.get_ylim()) for q in two}
            zm = {q: any(q is m and z for m, z in main) for q in two}

            def views():
                r = []
                for q in two:
                    lim = (q.get_xlim(), q.get_ylim())
                    r.append([[int(round((v - r0[0]) / (r0[1] - r0[0]) * S))
                               for v in l] for l, r0 in zip(lim, ref[q])])
                return r

            def size():
                return [T(v) for v in fig.get_size_inches()]

            logs = [[q.get_xscale() == 'log', q.get_yscale() == 'log']
                    for q in two]
            rec.ev('start', views=views(), size=size())
            extra = plt.figure()
            for o in c['ops']:
                if o['op'] == 'key':
                    e = KeyEvent('key_press_event', fig.canvas, o['key'])
                    fig.canvas.callbacks.process('key_press_event', e)
                    opn = bool(plt.fignum_exists(fig.number))
                    if not plt.fignum_exists(extra.number):
                        raise RuntimeError('another figure was closed')
                    rec.ev('key', key=o['key'], open=opn, views=views(),
                           size=size())
                    if not opn:
                        break
                    continue
                if o['op'] == 'off':
                    x, y = 0.5, 0.5
                else:
                    q = A[(o['ax'] - 1) % len(A)]
                    x, y = q.transAxes.transform((o['fx'] / 100.0,
                                                  o['fy'] / 100.0))
                e = MouseEvent('scroll_event', fig.canvas, x, y,
                               button='up' if o['dir'] == 'in' else 'down',
                               step=1 if o['dir'] == 'in' else -1)
                q = e.inaxes
                if q is not None and q not in two:
                    pos, ia = [0, 0], 0
                elif q is None:
                    pos, ia = [0, 0], 0
                else:
                    ia = [m is q for m in two].index(True) + 1
                    pos = [int(round((v - r0[0]) / (r0[1] - r0[0]) * S))
                           for v, r0 in zip((e.xdata, e.ydata), ref[q])]
                fig.canvas.callbacks.process('scroll_event', e)
                rec.ev('scroll', ax=ia, pos=pos, dir=o['dir'], views=views(),
                       zoomable=[zm[m] for m in two], log=logs, size=size(),
                       open=bool(plt.fignum_exists(fig.number)))
            if plt.fignum_exists(fig.number):
                if c['close'] == 'all':
                    plot.close()
                    ok = not plt.get_fignums()
                else:
                    plot.close(fig if c['close'] == 'fig' else fig.number)
                    ok = plt.get_fignums() == [extra.number]
                rec.ev('closed', ok=ok)

    with open(os.environ['VERIF_SCN']) as f:
        scn = [s['s'] for s in json.load(f)]
    for k, c in enumerate(scn):
        rec.trace('fig-%d' % k, judge='FigTrace', shards=4)
        try:
            scen(c)
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
            rec.ev('exc', t=repr(e))
    plt.close('all')
    Figure.show = show0
