"""SPOD projection and reconstruction by groups of ranks of different size from the same fit."""
import os, yaml
import numpy as np
from ops_spod import arr, dofit, rawc
from proj import *


def newdata(s):
    """the record to project: that of the fit or another one (ints [t][p] or [t][p][2])"""
    if s.get('data2') is None: return arr(s)
    q = dict(s, data=s['data2'], cplx=s.get('cplx2', s.get('cplx')))
    if s.get('dtypein2'):
        for k in ('cols', 'gain', 'shift'): q.pop(k, None)
        q.update(dtypein=s['dtypein2'], shift=s.get('shift2', 0))
    return arr(q)


def project(s, comm, sd):
    import pyspod.spod.utils as us
    import pyspod.utils.postproc as post
    rank = comm.rank if comm is not None else 0
    bar = (lambda: None) if comm is None else comm.Barrier
    # fit
    fr = s.get('fitranks', 0)
    path = None
    if comm is None or fr == 0:
        if rank == 0: path = dofit(s, None, sd).savedir_sim
    else:
        sub = comm.Split(0 if rank < fr else 1, rank)
        if rank < fr: path = dofit(s, sub, sd).savedir_sim
        sub.Free()
    if comm is not None: path = comm.bcast(path, root=0)
    bar()
    d = newdata(s)
    if s.get('xr'):
        import xarray as xr
        d = xr.DataArray(d, dims=['t'] + ['d%d' % i for i in range(d.ndim - 1)])
    out = []
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in s['band'].items()}
    if s.get('single'): kw['dtype'] = 'single'
    if s.get('tol'): kw['tol'] = s['tol']
    for m in s['sizes']:
        if m > (comm.size if comm else 0): continue
        sub = comm.Split(0 if rank < max(m, 1) else 1, rank) if comm is not None else None
        r = None
        if rank < max(m, 1):
            cm = sub if m else None
            fn = us.compute_coeffs_conv if s.get('conv') else us.compute_coeffs_op
            if s.get('conv'): fc, cd = fn(d, path, savedir='p%d' % m, comm=cm, **kw)
            else: fc, cd = fn(d, path, savedir='p%d' % m, svd=bool(s.get('svd')), comm=cm, **kw)
            rk = dict(dtype='single') if s.get('single') else {}
            co = None
            if s.get('gaincoef'): co = np.array(np.load(fc)) * s['gaincoef']
            ti = s['times']
            fr_, _ = us.compute_reconstruction(cd, ti, coeffs=co, comm=cm, **(dict(savedir='sub', filename='rr') if s.get('named') else {}), **rk)
            if cm is not None: cm.Barrier()
            if rank == 0:
                a = np.load(fc); p = np.load(os.path.join(cd, 'modes_r.npy')); l = np.load(os.path.join(cd, 'ltm.npy')); R = np.load(fr_)
                with open(os.path.join(cd, 'params_coeffs.yaml')) as f: y = yaml.safe_load(f)
                r = dict(a=a if co is None else a, p=p, l=l, R=R, y={k: y.get(k) for k in ('n_freq_r', 'freq_lb', 'freq_ub', 'freq_idx_lb', 'freq_idx_ub', 'n_modes_save')})
            # data in the span of the modes: project the reconstruction of the whole record again
            if s.get('again') and not s.get('conv'):
                fr2, _ = us.compute_reconstruction(cd, 'all', comm=cm, filename='full', **rk)
                if cm is not None: cm.Barrier()
                R1 = np.load(fr2)
                fc3, cd3 = us.compute_coeffs_op(R1, path, savedir='q%d' % m, svd=bool(s.get('svd')), comm=cm, **kw)
                fr3, _ = us.compute_reconstruction(cd3, 'all', comm=cm, **rk)
                if cm is not None: cm.Barrier()
                if rank == 0: r['R1'] = R1; r['R3'] = np.load(fr3)
        if sub is not None: sub.Free()
        bar()
        if rank == 0: out.append((m, r))
    if rank: return {}
    z = np.load(os.path.join(path, 'eigs_freq.npz'))
    W = np.load(os.path.join(path, 'weights.npy'))
    with open(os.path.join(path, 'params_modes.yaml')) as f: nm = yaml.safe_load(f)['n_modes_save']
    M = [np.array(post.get_modes_at_freq(path, f)) for f in range(len(z['freq']))]
    res = digest(s, np.asarray(d), out, z['freq'], W, M, nm)
    import shutil; shutil.rmtree(sd, ignore_errors=True)
    return res


def rel(x, y, tol=1e-9):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape: return BIGV
    if not (np.isfinite(x).all() and np.isfinite(y).all()): return BIGV
    sc = max(np.abs(x).max(initial=0), np.abs(y).max(initial=0))
    return 0 if sc == 0 else int(min(np.ceil(np.abs(x - y).max(initial=0) / sc / tol), BIGV))


BIGV = 999999999


def digest(s, d, out, freq, W, M, nm):
    """integers for T_Proj"""
    nv = s['nv']; xs = tuple(s['xshape']); N = int(np.prod(xs)) * nv; nt = d.shape[0]
    tol = 1e-4 if s.get('single') or s['params'].get('dtype') == 'single' else 1e-9
    D = d.reshape(nt, N); W = W.reshape(N)
    m0, r = out[0]
    conv = bool(s.get('conv'))
    a, p = r['a'], r['p']
    res = dict(shapes=[list(a.shape), list(p.shape), list(r['l'].shape), list(r['R'].shape)], nm=nm, nt=nt, xs=list(xs), nv=nv, N=N, conv=conv, y=r['y'])
    # columns of modes_r, identified with the stored modes
    stored = [np.asarray(x).reshape(N, -1) for x in M]
    K = int(np.prod(p.shape[len(xs) + 1:]))
    P = p.reshape(N, K)
    cols = []
    for k in range(K):
        ids = []
        for f, x in enumerate(stored):
            for m in range(x.shape[1]):
                if np.abs(x[:, m] - P[:, k]).max() <= (1e-5 if tol > 1e-6 else 1e-12) * max(np.abs(x[:, m]).max(), 1e-30): ids.append([f, m])
        cols.append(ids)
    res['cols'] = cols
    fs = 1e6 / max(np.abs(freq).max(), 1e-30)
    res['freq'] = [fx(x, fs) for x in freq]
    b = s['band']
    q = lambda k: b.get(k) is not None
    res['req'] = dict(list=[int(x) for x in b['freq_idx']] if q('freq_idx') else [], hl=q('freq_idx'), tb=q('T_lb') and q('T_ub'),
                      lo=fx(1 / b['T_ub'], fs) if q('T_ub') else 0, hi=fx(1 / b['T_lb'], fs) if q('T_lb') else 0)
    res['ylb'] = fx(r['y']['freq_lb'], fs); res['yub'] = fx(r['y']['freq_ub'], fs)
    # times
    t = s['times']
    res['tkind'] = t if isinstance(t, str) else ('none' if t is None else 'list')
    res['tlist'] = list(t) if isinstance(t, list) else []
    # values
    A = a.reshape(K, nt) if not conv else np.moveaxis(a, 1, -1).reshape(K, nt) if a.ndim == 3 else np.zeros((K, nt))
    if s.get('gaincoef'): Ause = A * s['gaincoef']
    else: Ause = A
    mean = D.mean(axis=0)
    u = max(np.abs(D - mean).max(), 1e-30)
    S = 10000
    fin = all(np.isfinite(np.asarray(x)).all() for x in (a, p, r['l'], r['R']))
    res['fin'] = bool(fin)
    res['mean'] = rel(r['l'].reshape(N), mean, tol) if fin else BIGV
    sw = np.sqrt(np.abs(W))[:, None] * P
    sv = np.linalg.svd(sw, compute_uv=False) if fin else [1, 0]
    res['well'] = bool(fin and sv[-1] > .08 * sv[0] and K <= N and not conv)
    ws = np.abs(W).max() or 1
    pw = np.abs(P).max() or 1                                   # modes and weights are normalised to magnitude 1
    res['full'] = bool(fin and not conv and len(sv) >= N and K >= N and (np.sort(sv)[::-1][N - 1] > 1e-3 * sv[0]) and not s.get('gaincoef'))
    if fin:
        cs = max(u / pw, max(np.abs(A).max(), np.abs(Ause).max()) / 9, 1e-30)      # products must fit in 32 bits
        u = cs * pw
        sel = list(range(nt)) if nt <= 12 else sampled(s['times'], nt)
        res['ts'] = sel
        if True:
            res['P'] = [fxc(P[:, k] / pw, S) for k in range(K)]
            res['A'] = [[[fx(A[k, i].real / cs, S), fx(A[k, i].imag / cs, S)] for i in sel] for k in range(K)]
            res['AU'] = [[[fx(Ause[k, i].real / cs, S), fx(Ause[k, i].imag / cs, S)] for i in sel] for k in range(K)]
            res['D'] = [fxc((D[i] - mean) / u, S) for i in sel]
            res['W'] = [fx(x / ws, 1000) for x in W]
            # reconstruction minus the stored mean, rows of the requested times
            R = r['R'].reshape(r['R'].shape[0], -1)
            res['R'] = [fxc((x - r['l'].reshape(-1)) / u, S) if x.size == N else [] for x in R]
    else: res.update(ts=[], P=[], A=[], AU=[], D=[], W=[], R=[])
    R = r['R'].reshape(r['R'].shape[0], -1)
    res['fulldiff'] = -1
    if res['full']:
        ti = times(t, nt)
        res['fulldiff'] = rel(R, D[ti], 1e-7 if tol < 1e-6 else 1e-3) if R.shape == D[ti].shape else BIGV
    res['againdiff'] = rel(r['R1'], r['R3'], 1e-6 if tol < 1e-6 else 1e-2) if 'R1' in r else -1
    # other groups of ranks
    c = sv[0] / max([x for x in sv if x > 1e-5 * sv[0]] or [1]) if fin else 1
    cond = float(sv[0] / min([x for x in sv if x > 1e-5 * sv[0]] or [1])) if fin else 1.0
    res['cond'] = int(min(cond ** 2, 1e6))
    lo = 1e-12 if tol < 1e-6 else -1
    cut = 100 * s.get('tol', 1e-10)                             # no singular value near the one below which they are taken for zero
    res['gap'] = bool(fin and K <= N and not any(lo < (x / sv[0]) ** 2 < max(cut, 1e-8 if tol < 1e-6 else 1e-4) for x in sv) or fin and K > N and tol < 1e-6 and not any(lo < (x / sv[0]) ** 2 < max(cut, 1e-8) for x in sv))
    # normal equations, in units of the precision
    res['normal'] = -1
    if fin and not conv and A.shape == (K, nt):
        G = P.conj().T * W[None, :]
        q = np.abs(G @ (D - mean).T).max(initial=0)
        res['normal'] = int(min(np.ceil(np.abs(G @ ((D - mean).T - P @ A)).max(initial=0) / q / tol), BIGV)) if q > 0 else 0
    if not res['gap']: res['full'] = False; res['fulldiff'] = -1
    res['others'] = [[m, rel(x['a'], a, tol), rel(x['p'], p, tol), rel(x['l'], r['l'], tol), rel(x['R'], r['R'], tol), int(x['y'] != r['y'])] for m, x in out[1:]]
    return res


def sampled(t, nt):
    """a dozen times, among them some of those asked for"""
    q = sorted(set(x % nt for x in times(t, nt)))
    q = [q[int(i)] for i in np.linspace(0, len(q) - 1, min(len(q), 7))]
    return sorted(set(q + np.linspace(0, nt - 1, 6).astype(int).tolist()))


def times(t, nt):
    if t is None: return [0, nt // 2, nt - 1]
    if isinstance(t, list): return t
    return list(range(0, nt, dict(all=1, half=2, quarter=4, tenth=10, hundredth=100)[t]))
