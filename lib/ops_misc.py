"""Small numerical helpers: error norms, nearest lookups, emulation scaling and sequences."""
import os, shutil
import numpy as np
from proj import *


def mk(s, k):
    """integer array of a scenario (value / s['den']), complex if its entries are pairs"""
    a = np.array(s[k], dtype=float)
    if s.get('cplx'): a = a[..., 0] + 1j * a[..., 1]
    a = a.reshape(s['shape']) if 'shape' in s else a
    if s.get('dtype'): a = a.astype(s['dtype'])
    if s.get('layout') == 'F': a = np.asfortranarray(a)
    if s.get('layout') == 'T': a = np.ascontiguousarray(a.T).T
    if s.get('layout') == 'S': b = np.zeros(tuple(2 * n for n in a.shape), a.dtype); b[tuple(slice(None, None, 2) for _ in a.shape)] = a; a = b[tuple(slice(None, None, 2) for _ in a.shape)]
    return a


def err(s, comm, sd):
    import pyspod.utils.errors as ue
    d, r = mk(s, 'data'), mk(s, 'ref')
    d0, r0 = d.copy(), r.copy()
    n = d.size; q = s['dt']
    out = {}
    for k in ('l1', 'l2', 'linf', 'l1_rel', 'l2_rel', 'linf_rel'): out[k] = ue.compute_l_errors(d, r, norm_type=k)
    out['l2d'] = ue.compute_l_errors(d, r)
    out['h1'] = ue.compute_h_errors(d, r, q); out['h1n'] = ue.compute_h_errors(d, r, q, norm_type='h1')
    z = [ue.compute_l_errors(r, r.copy(), norm_type=k) for k in ('l1', 'l2', 'linf', 'l1_rel', 'l2_rel', 'linf_rel')] + [ue.compute_h_errors(r, r.copy(), q)]
    sw = {k: ue.compute_l_errors(r, d, norm_type=k) for k in ('l1', 'l2', 'linf')}
    sw['h1'] = ue.compute_h_errors(r, d, q)
    # another order of the points of space
    P = np.random.default_rng(s['seed']).permutation(int(np.prod(d.shape[1:])))
    pm = lambda a: a.reshape(a.shape[0], -1)[:, P].reshape(a.shape)
    pe = {k: ue.compute_l_errors(pm(d), pm(r), norm_type=k) for k in ('l1', 'l2', 'linf', 'l1_rel', 'l2_rel', 'linf_rel')}
    pe['h1'] = ue.compute_h_errors(pm(d), pm(r), q)
    return dict(l1=fx(out['l1'] * n, 1000), l2=fx(out['l2'] * n, 400), linf=fx(out['linf'], 1000), l1r=fx(out['l1_rel'] * n * 60, 100), l2r=fx(out['l2_rel'] * n * 60, 8),
                linfr=fx(out['linf_rel'] * 60, 100), h1=fx(out['h1'] * np.sqrt(q), 200), h1n=fx(out['h1n'] * np.sqrt(q), 200), l2d=fx(out['l2d'] * n, 400), zeros=[fx(x, 1e6) for x in z],
                swap=[fx(sw['l1'] * n, 1000), fx(sw['l2'] * n, 400), fx(sw['linf'], 1000), fx(sw['h1'] * np.sqrt(q), 200)],
                perm=[fx(pe['l1'] * n, 1000), fx(pe['l2'] * n, 400), fx(pe['linf'], 1000), fx(pe['l1_rel'] * n * 60, 100), fx(pe['l2_rel'] * n * 60, 8), fx(pe['linf_rel'] * 60, 100), fx(pe['h1'] * np.sqrt(q), 200)],
                real=bool(all(np.isrealobj(np.asarray(v)) and np.ndim(v) == 0 for v in out.values())), kept=bool(np.array_equal(d, d0) and np.array_equal(r, r0)))


def near(s, comm, sd):
    import pyspod.utils.postproc as post
    den = 4.0
    r = dict(f=[], c=[], bad=[])
    if s.get('cls'):
        from pyspod.spod.standard import Standard
        o = Standard(params=dict(time_step=s['cls'], n_space_dims=len(s['axes']), n_variables=1, n_dft=6, savedir=os.path.join(sd, 'r'), fullspectrum=bool(s.get('full'))))
        xs = tuple(len(a) for a in s['axes'])
        o.fit([np.random.default_rng(1).standard_normal((20,) + xs)])
        fs = 1e6 / np.abs(o.freq).max()
        for q in s['req']:
            v, i = o.find_nearest_freq(q / 40.0)
            r['f'].append(dict(axis=[fx(x, fs) for x in o.freq], req=fx(q / 40.0, fs), val=fx(v, fs), idx=int(i)))
    conv = lambda a: [x / den for x in a] if s.get('aslist') else np.array(a) / den
    num = lambda x: x / den
    if s.get('ity'):                       # axes of integers
        den = 1; conv = lambda a: np.array(a).astype(s['ity']); num = np.dtype(s['ity']).type if s.get('asnum') else int
    ax = conv(s['freq'])
    for q in s['req']:
        v, i = post.find_nearest_freq(num(q), ax) if not s.get('cls') else o.find_nearest_freq(freq_req=num(q), freq=ax)
        r['f'].append(dict(axis=s['freq'], req=q, val=exact(v, den), idx=int(i)))
    X = [conv(a) for a in s['axes']]
    xs = tuple(len(a) for a in s['axes'])
    for q in s['coords']:
        cc = [num(x) for x in q]
        cc = tuple(cc) if s.get('astuple') else (np.array(cc) if s.get('asarr') else cc)
        xi, idx = post.find_nearest_coords(cc, X, xs) if not s.get('cls') else o.find_nearest_coords(cc, X)
        r['c'].append(dict(req=q, val=[exact(np.asarray(v), den) for v in xi], idx=[int(i) for i in idx]))
    # wrong shape of the data
    for w in (xs[:-1] + (xs[-1] + 1,), xs + (1,)):
        try: post.find_nearest_coords([0.0] * len(xs), X, w); r['bad'].append(0)
        except ValueError: r['bad'].append(1)
    shutil.rmtree(sd, ignore_errors=True)
    r['axes'] = s['axes']
    return r


def scale(s, comm, sd):
    from pyspod.emulation.base import Base
    p = dict(data_type=s['dtype_name'])
    if s.get('norm') is not None: p['normalization'] = s['norm']
    o = Base(p)
    g = s.get('gain', 1.0)
    cplx = s['cplx']
    tr = lambda k: (lambda a: (a[..., 0] + 1j * a[..., 1] if cplx else a) * g)(np.array(s[k], dtype=float))
    a, b = tr('data'), tr('data2')
    if s.get('single'): a = a.astype(np.complex64 if cplx else np.float32); b = b.astype(a.dtype)
    a0, b0 = a.copy(), b.copy()
    if s.get('plain'): a, b = a.real.astype(s.get('ints') or a.real.dtype), b.real.astype(s.get('ints') or b.real.dtype)
    vec = np.asarray(o.scaler(a))
    sa = np.asarray(o.scale_data(a, vec=vec)); sb = np.asarray(o.scale_data(b, vec=vec))
    da = np.asarray(o.descale_data(sa, vec=vec)); db = np.asarray(o.descale_data(sb, vec=vec))
    # a part that is zero in the training matrix has no scale
    if vec.shape == (a.shape[0],):
        z = b0.copy(); k = vec.real == 0; z.real[k] = 0; db = db.copy(); db.real[k] = 0
        if cplx: k = vec.imag == 0; z.imag[k] = 0; db.imag[k] = 0
    else: z = b0
    P = np.random.default_rng(s['seed']).permutation(a.shape[0])
    vp = np.asarray(o.scaler(a[P])); sp = np.asarray(o.scale_data(a[P], vec=vec[P]))
    tol = 1e-6 if s.get('single') or s.get('ints') == 'int16' else 1e-12
    def d(x, y):
        if x.shape != y.shape: return BIG
        if not (np.isfinite(x).all() and np.isfinite(y).all()): return BIG
        m = max(float(np.abs(x).max(initial=0)), 1e-300)
        return int(min(np.ceil(float(np.abs(x - y).max(initial=0)) / m / tol), BIG))
    S = 10000
    # element-wise consistency of scaled values: scaled * vec = data, in units of the largest entry of the matrix
    u = max(float(np.abs(a0).max()), float(np.abs(b0).max()), 1e-300)
    v = vec.reshape(-1)
    ok = v.shape == (a.shape[0],) and sa.shape == a.shape and sb.shape == b.shape and np.isfinite(v).all() and np.isfinite(sa).all() and np.isfinite(sb).all()
    def pieces(x):
        return [[[fx(z.real, S), fx(z.imag, S)] for z in row] for row in np.asarray(x, complex)]
    return dict(rows=a.shape[0], shape=[list(vec.shape), list(sa.shape), list(da.shape)], dshape=list(a.shape), ok=bool(ok), back=[d(a0, da), d(z, db)], kept=bool(np.array_equal(a, a0) and np.array_equal(b, b0)),
                over=bool((np.abs(sa.real) > 1 + tol).any() or (np.abs(sa.imag) > 1 + tol).any()), permvec=d(vec[P], vp), permsc=d(sa[P], sp),
                V=[[fx(z.real / u, S), fx(z.imag / u, S)] for z in np.asarray(v, complex)] if ok else [], SA=pieces(sa) if ok else [], SB=pieces(sb) if ok else [], A=pieces(a0 / u), B=pieces(b0 / u))


class Stub:
    """a network whose prediction names the window it was given: network*10^6 + (first time + length)*10^4 + step*100 + feature"""
    def __init__(self, table, nout, nf, log):
        self.t, self.nout, self.nf, self.log, self.net = table, nout, nf, log, 0
    def load_weights(self, name, *a, **k):
        b = os.path.basename(str(name)); self.log.append(b)
        self.net = 1 if b.startswith('real') else 2 if b.startswith('imag') else 3
    def predict(self, x, *a, **k):
        x = np.asarray(x); out = np.zeros((x.shape[0], self.nout * self.nf))
        for b in range(x.shape[0]):
            t = self.t.get((self.net, x[b].tobytes()), 99)
            for j in range(self.nout):
                for f in range(self.nf): out[b, j * self.nf + f] = self.net * 1e6 + t * 1e4 + j * 100 + f
        return out
    predict_on_batch = predict
    def __call__(self, x, *a, **k): return self.predict(x)
    def fit(self, x=None, y=None, validation_data=None, callbacks=(), **k):
        fp = [os.path.basename(str(getattr(c, 'filepath', ''))) for c in callbacks]
        self.log.append([np.asarray(x), np.asarray(y), np.asarray(validation_data[0]), np.asarray(validation_data[1]), fp])
        return None


def seq(s, comm, sd):
    from pyspod.emulation.neural_nets import Neural_Nets
    nf, nt, ni, no, fh = s['nf'], s['nt'], s['ni'], s['no'], s['fh']
    p = dict(data_type='complex' if s['cplx'] else 'real', n_seq_in=ni, n_seq_out=no, savedir=sd, network='lstm', n_neurons=2, epochs=1, batch_size=4)
    o = Neural_Nets(p)
    code = lambda nt, base: base + np.arange(nt)[None, :] * 100.0 + np.arange(nf)[:, None]          # feature f at time t
    d = code(nt, 1e6)
    if s.get('layout') == 'F': d = np.asfortranarray(d)
    o._n_features = nf
    r = dict(nf=nf, nt=nt, ni=ni, no=no, fh=fh, cplx=s['cplx'])
    dec = lambda a: [[[int(v) // 100 % 10000, int(v) % 100, int(v) // 1000000] for v in row] for row in a]
    if nt - ni - no - fh + 1 >= 0:
        x, y = o.extract_sequences(d, fh=fh) if fh != 1 or s.get('kw') else o.extract_sequences(data=d)
        x, y = np.asarray(x), np.asarray(y)
        r['xs'], r['ys'] = list(x.shape), list(y.shape)
        ok = x.ndim == 3 and y.ndim == 2
        r['x'] = [dec(w) for w in x] if ok else []
        r['y'] = dec(y) if ok else []
        r['seq'] = True
    else: r.update(seq=False, xs=[], ys=[], x=[], y=[])
    # inference with a stand-in for the trained network
    D = code(nt, 0.0).astype(complex) if s['cplx'] else code(nt, 0.0)
    if s['cplx']: D = D + 1j * (code(nt, 0.0) + 50000)
    if s['cplx'] and s.get('partial'): D.imag[: nf - 1] = 0
    if s['cplx'] and s.get('late'): D.imag[:, : min(ni, nt - 1)] = 0        # imaginary from some later time on only
    D0 = D.copy()
    tab = {}
    for t in range(ni, nt + 1):
        w = np.ascontiguousarray(D[:, t - ni:t].T)
        tab[(1, np.ascontiguousarray(w.real).tobytes())] = t; tab[(2, np.ascontiguousarray(w.imag).tobytes())] = t
    if s['cplx'] and s.get('partial') and nf == 1: pass
    log = []
    o.model = Stub(tab, no, nf, log)
    c = np.asarray(o.model_inference(D, idx=s['idx']) if s['idx'] else o.model_inference(D))
    r['nets'] = log; r['idx'] = s['idx']
    r['cshape'] = list(c.shape); r['kept'] = bool(np.array_equal(D, D0))
    part = lambda v: [int(v) // 1000000, int(v) // 10000 % 100, int(v) // 100 % 100, int(v) % 100]
    if c.shape == (nf, nt):
        r['init'] = bool(np.array_equal(c[:, :ni], D0[:, :ni]))
        r['cr'] = [[part(v) for v in row] for row in c.real[:, ni:]]
        r['ci'] = [[part(v) for v in row] for row in c.imag[:, ni:]]
    else: r['init'] = False; r['cr'] = r['ci'] = []
    r['haveim'] = bool(s['cplx'])
    # training: real and imaginary parts go to their own networks
    if s.get('train') and nt - ni - no >= 0:
        T = code(nt, 1e6) + (1j * code(nt, 2e6) if s['cplx'] else 0); Vd = code(nt + 1, 3e6) + (1j * code(nt + 1, 4e6) if s['cplx'] else 0)
        log = []
        o.model = Stub({}, no, nf, log)
        o.model_train(data_train=T, data_valid=Vd, idx=s['idx'])
        r['train'] = [dict(x=[dec(w) for w in e[0]], y=dec(e[1]), vx=[dec(w) for w in e[2]], vy=dec(e[3]), fp=e[4]) for e in log]
        r['trained'] = True
    else: r['train'] = []; r['trained'] = False
    shutil.rmtree(sd, ignore_errors=True)
    return r


def config(s, comm, sd):
    """construct and fit; what happened on this rank, and (rank 0) the files left behind"""
    import json as _j
    from ops_spod import make, source
    d, vs = source(s, comm, sd)
    if s.get('diffshape') and s.get('kind', 'array') == 'array':
        ax = -1 - (1 if (s['nv'] > 1 or s.get('vaxis')) else 0)
        w = s.get('diffwhich', -1); x = d[w]; h = s['diffshape']
        if h in ('one', 'onelast'):                      # a data set that could be broadcast against the others
            q = 1 if h == 'one' else ax % x.ndim
            y = np.take(x, [0], axis=q) if x.shape[q] > 1 else np.concatenate([x, x], axis=q)
        elif h == 'first': y = np.concatenate([x, x], axis=1)
        elif h == 'vars': y = np.concatenate([x, x], axis=-1)
        elif h == 'more': y = np.concatenate([x, x], axis=ax)
        else: y = np.moveaxis(x, 1, 2) if x.ndim > 2 else x[:, :-1]
        d = list(d); d[w] = y
    if s.get('diffshape') and s.get('kind') == 'nc' and (comm is None or comm.rank == 0):
        import xarray as xr
        f = d[-1]; q = xr.open_dataset(f).load(); q.close()
        dim = 'x0'; q2 = xr.concat([q, q], dim=dim); os.remove(f); q2.to_netcdf(f); q2.close()
    if s.get('diffshape') and s.get('kind') == 'mat' and (comm is None or comm.rank == 0):
        import h5py
        with h5py.File(d[-1], 'r') as h: q = np.array(h['data'])
        with h5py.File(d[-1], 'w') as h: h['data'] = np.transpose(q, (0, 2, 1, 3)) if q.shape[1] != q.shape[2] else np.concatenate([q, q], axis=1)
    if s.get('nonfinite') and (comm is None or comm.rank == 0):
        import h5py
        with h5py.File(d[len(d) // 2], 'r') as h: q = np.array(h['data'])
        q.flat[q.size // 2] = {'inf': np.inf, '-inf': -np.inf}.get(s['nonfinite'], np.nan)
        with h5py.File(d[len(d) // 2], 'w') as h: h['data'] = q
    if s.get('missing') and comm.rank == 0: os.remove(d[s['missing'] - 1])
    if comm is not None: comm.Barrier()
    out = 'ok'; err = ''
    p = dict(s['params'])
    if 'wcount' in s: s = dict(s)
    try:
        if 'wcount' in s:
            from pyspod.spod.standard import Standard
            from pyspod.spod.streaming import Streaming
            K = Streaming if s.get('cls') == 'str' else Standard
            p['savedir'] = os.path.join(sd, 'res'); p.setdefault('n_space_dims', len(s['xshape'])); p.setdefault('n_variables', s['nv'])
            o = K(params=p, weights={'weights_name': 'w', 'weights': np.ones(s['wcount'])}, comm=comm)
        else: o, _, _ = make(s, comm, sd)
        if vs is not None and s.get('cls', 'std') == 'std': o.fit(d, variables=None if s.get('novars') else vs)
        else: o.fit(data_list=d)
    except Exception as e: out = 'raised'; err = '%s: %s' % (type(e).__name__, str(e)[:80])
    if comm is not None: comm.Barrier()
    r = dict(out=out, err=err)
    if comm is None or comm.rank == 0:
        r['files'] = sorted(os.path.relpath(os.path.join(a, f), os.path.join(sd, 'res')) for a, _, fs in os.walk(os.path.join(sd, 'res')) for f in fs if not f.startswith('fft_block'))
        shutil.rmtree(sd, ignore_errors=True)
    return r


def cfgfile(s, comm, sd):
    import yaml, json as _j
    import pyspod.utils.io as uio
    f = os.path.join(sd, 'c.yaml')
    with open(f, 'w') as h: h.write(s['text'])
    if s.get('argv'):
        import sys
        old = sys.argv; sys.argv = ['prog', '--config_file', f]
        try: p = uio.read_config()
        finally: sys.argv = old
    else: p = uio.read_config(f)
    shutil.rmtree(sd, ignore_errors=True)
    return dict(got=[[str(k), _j.dumps(v)] for k, v in p.items()])


def geo(s, comm, sd):
    """integration weights of a latitude-longitude grid, as returned and as used by fits (weights files)"""
    import pyspod.utils.weights as uw
    n1, n2, n3, nv, d = s['n1'], s['n2'], s['n3'], s['nv'], s['dims']
    kw = {} if s['R'] is None else dict(R=s['R'] * (1.0 if s.get('fl') else 1))
    a = (n1, n2) if d == 2 else (n1, n2, n3)
    f = uw.geo_trapz_2D if d == 2 else uw.geo_trapz_3D
    if s.get('named'): q = f(**dict(zip(('x1_dim', 'x2_dim', 'x3_dim'), a)), n_vars=nv, **kw)
    else: q = f(*a, nv, **kw)
    sc = 1e6 * n2 / (2 * np.pi)
    w = np.asarray(q['weights'])
    r = dict(n1=n1, n2=n2, n3=n3, nv=nv, dims=d, R=s['R'] or 1, shape=list(w.shape), w=fxa(w.reshape(-1), sc), real=bool(np.isrealobj(w)), named=bool(isinstance(q.get('weights_name'), str)), used=[], fitted=False)
    if s.get('cls'):
        if s['cls'] == 'pod': from pyspod.pod.standard import Standard as K
        elif s['cls'] == 'str': from pyspod.spod.streaming import Streaming as K
        else: from pyspod.spod.standard import Standard as K
        x = np.random.default_rng(s['seed']).standard_normal((9,) + a + ((nv,) if nv > 1 or s.get('vaxis') else ()))
        p = dict(time_step=1.0, n_space_dims=d, n_variables=nv, savedir=os.path.join(sd, 'r'))
        if s['cls'] == 'pod': p['n_modes_save'] = 2
        else: p['n_dft'] = 4
        o = K(params=p, weights=q, comm=comm); o.fit(data_list=x)
        if comm is not None: comm.Barrier()
        if comm is None or comm.rank == 0:
            import glob
            v = np.load(glob.glob(os.path.join(sd, 'r', '**', 'weights.npy'), recursive=True)[0])
            r['used'] = fxa(v.reshape(-1), sc); r['fitted'] = True
        if comm is not None: comm.Barrier()
    return r
