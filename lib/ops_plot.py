"""What the plotting functions draw: figures are recorded when they are saved, shown or added to a PDF."""
import os, re, sys
import numpy as np
from proj import *

MODE = {}


class Recorder:
    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg', force=True)
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        from matplotlib.figure import Figure
        self.plt, self.A, self.F = plt, Axes, Figure
        self.figs, self.keep = [], {}
        plt.close('all')
        rec = self
        for n in ('contourf', 'pcolormesh'):
            f = getattr(Axes, n); self.keep[(Axes, n)] = f
            def w(ax, *a, _f=f, _n=n, **k):
                r = _f(ax, *a, **k)
                b = [np.array(x, copy=True) for x in a if not np.isscalar(x)][:3]
                ax.__dict__.setdefault('_maps', []).append((r, b[-1]))
                if len(b) == 1: b = [np.arange(b[0].shape[1]), np.arange(b[0].shape[0])] + b
                ax.__dict__.setdefault('_drawn', []).append((_n, b))
                return r
            setattr(Axes, n, w)
        for n in ('axhline', 'axvline'):
            f = getattr(Axes, n); self.keep[(Axes, n)] = f
            def w(ax, *a, _f=f, _n=n, **k):
                r = _f(ax, *a, **k)
                v = a[0] if a else k.get('y' if _n == 'axhline' else 'x', 0)
                ax.__dict__.setdefault('_marks', []).append((_n, v, r))
                return r
            setattr(Axes, n, w)
        f = Axes.scatter; self.keep[(Axes, 'scatter')] = f
        def sc(ax, x, y, *a, _f=f, **k):
            r = _f(ax, x, y, *a, **k)
            ax.__dict__.setdefault('_coast', []).append(coast_name(x, y))
            return r
        Axes.scatter = sc
        f = Figure.colorbar; self.keep[(Figure, 'colorbar')] = f
        def cb(fig, *a, _f=f, **k):
            r = _f(fig, *a, **k); r.ax._is_colorbar = True
            return r
        Figure.colorbar = cb
        self.keep[(Figure, 'savefig')] = Figure.savefig
        def save(fig, fname, *a, _f=Figure.savefig, **k):
            rec.take(fig, fname if isinstance(fname, str) else 'pdf')
            if not isinstance(fname, str): _f(fig, fname, *a, **k)
        Figure.savefig = save
        self.keep[(plt, 'show')] = plt.show
        def show(*a, **k):
            for i in plt.get_fignums(): rec.take(plt.figure(i), '')
            plt.close('all')
        plt.show = show
        return self

    def take(self, fig, fname):
        ax = []
        for a in fig.axes:
            if getattr(a, '_is_colorbar', False): continue
            m = a.__dict__.get('_marks', [])
            ml = [x for k in m for x in np.atleast_1d(np.array(k[2], dtype=object)).tolist()]
            ln = [(np.array(x.get_xdata(orig=True)), np.array(x.get_ydata(orig=True))) for x in a.get_lines() if not any(x is y for y in ml)]
            d = a.__dict__.get('_drawn', [])
            if d or ln or m: ax.append(dict(view=view(a, d, ln, m), cols=[colours(*q) for q in a.__dict__.get('_maps', [])], drawn=list(d), lines=ln, marks=[(k[0], k[1]) for k in m], coast=list(a.__dict__.get('_coast', [])), title=a.get_title(), xl=a.get_xlabel(), yl=a.get_ylabel()))
        st = fig._suptitle.get_text() if getattr(fig, '_suptitle', None) is not None else ''
        self.figs.append(dict(file=fname, axes=ax, title=st))

    def __exit__(self, *e):
        for (o, n), f in self.keep.items(): setattr(o, n, f)
        self.plt.close('all')


def ends(vals, log=False):
    """smallest and largest of the finite values (the positive ones for a logarithmic axis), in thousandths"""
    v = np.concatenate([np.ravel(np.asarray(np.ma.filled(np.ma.asarray(q), np.nan), float)) for q in vals] or [np.zeros(0)])
    v = v[np.isfinite(v) & ((v > 0) | (not log))]
    return [fx(v.min(), 1000), fx(v.max(), 1000)] if v.size else []


def view(a, d, ln, m):
    """what an axes object shows (its limits) and what was put there"""
    out = {}
    def shown(x, y):          # points of a line that can be drawn
        x, y = (np.atleast_1d(np.asarray(np.ma.filled(np.ma.asarray(q), np.nan), float)) for q in (x, y))
        if x.shape != y.shape: return x, y
        k = np.isfinite(x) & np.isfinite(y) & ((x > 0) | (a.get_xscale() != 'log')) & ((y > 0) | (a.get_yscale() != 'log'))
        return x[k], y[k]
    ln = [shown(*q) for q in ln]
    for n, lim, sc, dr, li, mk in (('x', a.get_xlim(), a.get_xscale(), 0, 0, 'axvline'), ('y', a.get_ylim(), a.get_yscale(), 1, 1, 'axhline')):
        out[n] = dict(ticks=fxa(getattr(a, 'get_%sticks' % n)(), 1), labels=[fx(float(t.get_text()), 1) if t.get_text().lstrip('-').isdigit() else BIG for t in getattr(a, 'get_%sticklabels' % n)()], lim=ends([lim]), put=ends([q[1][dr] for q in d] + [q[li] for q in ln] + [k[1] for k in m if k[0] == mk], sc == 'log'))
    return out


def colours(r, v):
    """range of the colour map (and of the contour levels) and of the values drawn with it"""
    l = np.asarray(getattr(r, 'levels', r.get_clim()), float)
    return dict(lim=ends([r.get_clim()]), lev=ends([l]), put=ends([v]))


COAST = {}
def coast_name(x, y):
    """which of the two coastlines of the package the points are"""
    if not COAST:
        import pyspod
        from scipy.io import loadmat
        for n, f in (('regular', 'coast.mat'), ('centred', 'coast_centred.mat')):
            d = loadmat(os.path.join(os.path.dirname(pyspod.__file__), 'utils', 'plotting_support', f))
            COAST[n] = (d['coastlon'].ravel(), d['coastlat'].ravel())
    for n, (a, b) in COAST.items():
        if np.size(x) == a.size and np.array_equal(np.ravel(x), a, equal_nan=True) and np.array_equal(np.ravel(y), b, equal_nan=True): return n
    return '?'


def names(s):
    """what names and titles say: numbers after var, mode, time (id), coeff id"""
    g = lambda p: [int(x) for x in re.findall(p, s)]
    return dict(v=g(r'var(?:iable)?[ :]*(\d+)'), m=g(r'mode[ :]*(\d+)'), t=g(r'time(?: id)? ?(\d+)'), c=g(r'coeff(?:_id| )(\d+)'))


def fxl(a): return fxa(np.asarray(np.ma.filled(np.ma.asarray(a), np.nan), float), 1)


def figure(f):
    n = names(os.path.basename(f['file'])) if f['file'] else dict(v=[], m=[], t=[], c=[])
    t = names(f['title'] + ' ' + ' '.join(a['title'] for a in f['axes']))
    ax = []
    for a in f['axes']:
        ax.append(dict(view=a['view'], cols=a['cols'], z=[dict(x=exact(d[1][0]), y=exact(d[1][1]), v=exact(np.asarray(d[1][2], float))) for d in a['drawn'] if d[1][2].ndim == 2],
                       lines=[dict(x=x, y=y) for x, y in a['lines']],
                       h=[exact(v) if np.ndim(v) == 0 else BIG for k, v in a['marks'] if k == 'axhline'], w=[exact(v) if np.ndim(v) == 0 else BIG for k, v in a['marks'] if k == 'axvline'],
                       t='im' if 'imag' in a['title'].lower() else 're' if 'real' in a['title'].lower() else '', coast=a['coast'], xl=a['xl'], yl=a['yl']))
    return dict(dir=os.path.dirname(f['file']), file=bool(f['file']), ext=os.path.splitext(f['file'])[1], fn=n, tn=t, ax=ax,
                per=[[fx(float(x), 100), u] for a in f['axes'] for x, u in re.findall(r'Period (-?[\d.]+) (\w+)', a['title'])])


def grid(s):
    """distinct integers for every frequency, point, variable, mode; real and imaginary part"""
    r = np.random.default_rng(s['seed'])
    sh = tuple(s['shape'])
    a = r.permutation(int(np.prod(sh)) * 2).reshape(sh + (2,)) + 1
    if s.get('neg'): a = a * np.where(r.random(a.shape) < .5, -1, 1)
    return a


class Holder:
    """an analysis object with results at hand, without a fit"""
    def __new__(cls, s, sd, xs, nv):
        from pyspod.spod.standard import Standard
        o = Standard(params=dict(time_step=1.0, n_space_dims=len(xs), n_variables=nv, n_dft=4, savedir=sd))
        o._savedir_sim = sd; o._modes_dir = os.path.join(sd, 'modes'); o._xshape = tuple(xs); o._nv = nv
        return o


def plot(s, comm, sd):
    import pyspod.utils.postproc as post
    k = s['what']
    if not (comm is None or comm.rank == 0): return dict(skip=True)
    out = dict(what=k, req={q: v for q, v in s.items() if q not in ('mod', 'op', 'seed')})
    fn = 'p.png' if s.get('save') else None
    fk = dict(filename=fn, path=os.path.join(sd, 'o'))
    os.makedirs(os.path.join(sd, 'o'), exist_ok=True)
    kw = {}
    use = lambda *ks: {q: s[q] for q in ks if q in s}
    arrs = {q: np.array(s[q], dtype=s.get('cdtype', float)) for q in ('x1', 'x2', 'x3') if s.get(q) is not None}
    before = {q: v.copy() for q, v in arrs.items()}
    o = None
    if k in ('modes2', 'modes3', 'mtrace', 'report'):
        a = grid(s); m = (a[..., 0] + 1j * a[..., 1]).astype(complex)
        os.makedirs(os.path.join(sd, 'modes'), exist_ok=True)
        for f in range(m.shape[0]):
            if s.get('single'):
                for j in range(m.shape[-1]): np.save(os.path.join(sd, 'modes', 'freq_idx_f%08d_m%08d.npy' % (f, j)), m[f, ..., j])
            else: np.save(os.path.join(sd, 'modes', 'freq_idx_%08d.npy' % f), m[f])
        out['A'] = a.tolist()
        if s.get('cls'): o = Holder(s, sd, s['shape'][1:-2], s['shape'][-2]); fk.pop('path')
        call = (lambda name: getattr(o, name)) if o is not None else (lambda name: lambda **q: getattr(post, name)(results_path=sd, **q))
        freq = np.array(s['freq'], float)
        kw = dict(freq_req=s['freq_req'], freq=freq, vars_idx=s['vars'], modes_idx=s['modes'], **fk)
    elif k in ('data2', 'dtrace', 'video'):
        a = grid(dict(s, shape=s['shape']))
        X = a[..., 0].astype(float)
        if s.get('cplx'): X = X + 1j * a[..., 1]
        out['A'] = a[..., 0].tolist()
        if s.get('dropv'): X = X[..., 0]
        if s.get('cls'): o = Holder(s, sd, s['shape'][1:-1], s['shape'][-1]); fk.pop('path')
        call = (lambda name: lambda X, **q: getattr(o, name)(data=X, **q)) if o is not None else (lambda name: lambda X, **q: getattr(post, name)(X=X, **q))
        kw = dict(X=X, vars_idx=s['vars'], **fk)
    with Recorder() as rec:
        if k == 'modes2': call('plot_2d_modes_at_frequency')(**kw, **arrs, **use('fftshift', 'imaginary', 'plot_max', 'shift180', 'equal_axes', 'title', 'limits_x1', 'limits_x2', 'coastlines', 'xticks', 'yticks'))
        elif k == 'report':
            o._eigs = np.array(s['eigs'], float); o._freq = freq / s['D']
            if s.get('ceigs'): o._eigs = o._eigs.astype(complex)
            o.plot_report(arrs['x1'], arrs['x2'], path=os.path.join(sd, 'o'), filename='r.pdf', **use('unit', 'shift180'))
            out['pdf'] = os.listdir(os.path.join(sd, 'o'))
        elif k == 'modes3': call('plot_3d_modes_slice_at_frequency')(**kw, **arrs, **use('fftshift', 'imaginary', 'plot_max', 'slice_dim', 'slice_id', 'equal_axes', 'title', 'coastlines', 'xticks', 'yticks'))
        elif k == 'mtrace':
            if s.get('x') is not None: kw['x'] = [np.array(q, float) for q in s['x']]
            call('plot_mode_tracers')(coords_list=[tuple(q) for q in s['coords']], **kw, **use('title', 'fftshift'))
        elif k == 'data2': call('plot_2d_data')(time_idx=s['times'], **kw, **arrs, **use('title', 'coastlines', 'xticks', 'yticks'))
        elif k == 'dtrace':
            if s.get('x') is not None: kw['x'] = [np.array(q, float) for q in s['x']]
            call('plot_data_tracers')(coords_list=[tuple(q) for q in s['coords']], time_limits=s['tlim'], **kw, **use('title'))
        elif k == 'video':
            import shutil as sh
            from matplotlib import animation
            kw['filename'] = 'v.mp4'
            w0, get0, sv0 = sh.which, animation.writers, animation.ArtistAnimation.save
            class Wr:
                def __getitem__(self, n): return lambda *a, **q: None
                def __getattr__(self, n): return getattr(get0, n)
            log = []
            def save(an, fname, *a, **q): log.append((fname, len(list(an.new_saved_frame_seq())) if False else None)); rec.take(an._fig, fname)
            sh.which = lambda c, *a, **q: '/bin/true' if c == 'ffmpeg' else w0(c, *a, **q)
            animation.writers = Wr(); animation.ArtistAnimation.save = save
            try: call('generate_2d_data_video')(time_limits=s['tlim'], sampling=s['sampling'], **kw, **arrs, **use('coastlines'))
            finally: sh.which = w0; animation.writers = get0; animation.ArtistAnimation.save = sv0
        elif k in ('eigs', 'eigf', 'eigp'):
            E = np.array(s['eigs'], float)
            if s.get('cplx'): E = E + 1j * np.array(s['eigs'], float)[::-1] * (0 if k != 'eigs' else 1)
            out['im'] = exact(E.imag)
            ek = use('title', 'equal_axes', 'show_axes', 'xticks', 'yticks')
            if s.get('cls'):
                o = Holder(s, sd, (3,), 1); o._eigs = E; o._freq = np.array(s['freq'], float); fk.pop('path')
                {'eigs': o.plot_eigs, 'eigf': o.plot_eigs_vs_frequency, 'eigp': o.plot_eigs_vs_period}[k](filename=fn, **ek)
            elif k == 'eigs': post.plot_eigs(E, **ek, **fk)
            else: {'eigf': post.plot_eigs_vs_frequency, 'eigp': post.plot_eigs_vs_period}[k](E, np.array(s['freq'], float), **ek, **fk)
        elif k == 'coeffs': post.plot_coeffs(np.array(s['coeffs'], float), coeffs_idx=s['idx'], **fk)
        elif k == 'series': post.plot_compare_time_series(np.array(s['a'], float), np.array(s['b'], float), label1='one', label2='two', **fk)
        elif k == 'hist': post.plot_training_histories(np.array(s['a'], float), np.array(s['b'], float), **fk)
        elif k == 'sub2':
            v = [np.array(q, float) for q in s['vals']]
            post.generate_2d_subplot(v[0], 't0', *([q for i in range(1, len(v)) for q in (v[i], 't%d' % i)]), **fk)
        elif k == 'spec':
            u = np.array(s['u'], float); n = u.size
            e = post.compute_energy_spectrum(u)
            out['e'] = fxa(np.asarray(e) * n * n, 1000); out['elen'] = int(np.size(e))
        left = len(rec.plt.get_fignums())
        if left and k != 'spec' and fn is None and not rec.figs: pass
        figs = [figure(f) for f in rec.figs]
    D = sd if o is not None else os.path.join(sd, 'o')
    sc = 1000
    for f in figs:
        f['indir'] = (not f['file']) or f['dir'] == D
        if k == 'report': f['indir'] = out['pdf'] == ['r.pdf']; f['ext'] = '.pdf'
        f.pop('dir')
        for a in f['ax']:
            for q in a['lines']:
                if k == 'mtrace':
                    fr = s['freq'][int(np.argmin(np.abs(np.array(s['freq'], float) - s['freq_req'])))]
                    th = 2 * np.pi * fr * q['x']
                    q['c'], q['s'] = fxa(np.cos(th), 10000), fxa(np.sin(th), 10000); q['cyc'] = fx((q['x'].max() - q['x'].min()) * abs(fr), 100); q['y'] = fxa(q['y'], 100); q['n'] = len(q['x'])
                    q['x'] = [fx(q['x'][0], 1000), fx(q['x'][-1], 1000)]
                    st = max(1, q['n'] // 25)
                    q['c'], q['s'], q['y'] = q['c'][::st], q['s'][::st], q['y'][::st]
                elif k == 'report': q['x'] = fxa(np.atleast_1d(np.asarray(q['x'], float) * s['D']), 1); q['y'] = exact(np.atleast_1d(q['y']))
                elif k == 'eigp': q['x'] = fxa(1.0 / q['x'], sc); q['y'] = exact(q['y'])
                else: q['x'] = fxa(q['x'], sc); q['y'] = exact(q['y'])
    out['figs'] = figs
    out['kept'] = all(np.array_equal(before[q], arrs[q]) for q in arrs)
    import shutil
    shutil.rmtree(sd, ignore_errors=True)
    return out
