"""Convolution coefficients of a fit: raw coefficients with the modes, weights and data they are formed from."""
import os, shutil, yaml
import numpy as np
from ops_spod import arr, dofit
from ops_proj import newdata, rel, BIGV
from proj import *


def convolve(s, comm, sd):
    import pyspod.spod.utils as us
    import pyspod.utils.postproc as post
    rank = comm.rank if comm is not None else 0
    bar = (lambda: None) if comm is None else comm.Barrier
    fr = s.get('fitranks', 0)
    path = None
    if comm is None or fr == 0:
        if rank == 0: path = dofit(s, None, sd).savedir_sim
    else:
        sub = comm.Split(0 if rank < fr else 1, rank)
        if rank < fr: path = dofit(s, sub, sd).savedir_sim
        sub.Free()
    if comm is not None: path = comm.bcast(path, root=0)
    bar()
    d = newdata(s)
    if s.get('xr'):
        import xarray as xr
        d = xr.DataArray(d, dims=['t'] + ['d%d' % i for i in range(d.ndim - 1)])
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in s['band'].items()}
    if s.get('single'): kw['dtype'] = 'single'
    if s.get('opts'): kw.update(s['opts'])
    out = []
    for m in s['sizes']:
        sub = comm.Split(0 if rank < max(m, 1) else 1, rank) if comm is not None else None
        if rank < max(m, 1):
            cm = sub if m else None
            fc, cd = us.compute_coeffs_conv(d, path, savedir='p%d' % m, comm=cm, **kw)
            if cm is not None: cm.Barrier()
            if rank == 0:
                with open(os.path.join(cd, 'params_coeffs.yaml')) as f: y = yaml.safe_load(f)
                out.append((m, np.load(fc), np.load(os.path.join(cd, 'modes_r.npy')), np.load(os.path.join(cd, 'ltm.npy')), y['n_freq_r']))
        if sub is not None: sub.Free()
        bar()
    if rank: return {}
    z = np.load(os.path.join(path, 'eigs_freq.npz'))
    W = np.load(os.path.join(path, 'weights.npy'))
    res = digest(s, np.asarray(d), out, z, W)
    shutil.rmtree(sd, ignore_errors=True)
    return res


def digest(s, d, out, z, W):
    """integers for T_Conv: modes P scale 2e4 of the largest, weights scale 1e4 of the largest, coefficients scale 2000"""
    p = s['params']; n = p['n_dft']; g = s.get('gain', 1.0)
    single = bool(s.get('single') or p.get('dtype', 'double') != 'double')
    nv = s['nv']; xs = tuple(s['xshape']); N = int(np.prod(xs)) * nv; nt = d.shape[0]
    _, a, m, l, nf = out[0]
    W = np.asarray(W, dtype=float).reshape(N)
    ok = a.ndim == 3 and a.shape[:2] == (nf, nt) and m.shape[:-2] == xs + (nv,) and m.shape[-2:] == (nf, a.shape[2])
    r = dict(n=n, nt=nt, N=N, nf=nf, shape=bool(ok), single=single, fin=False, tab=n <= 10, fidx=[], fit=False)
    r['others'] = [[k, rel(x, a, 1e-4 if single else 1e-9)] for k, x, _, _, _ in out[1:]]
    if not ok: return r
    m = np.moveaxis(m, (-2, -1), (0, 1)).reshape(nf, a.shape[2], N)         # frequency, mode, point
    fin = all(np.isfinite(np.asarray(x)).all() for x in (a, m, W))
    r['fin'] = bool(fin)
    if not fin: return r
    pw = np.abs(m).max() or 1.0; ws = np.abs(W).max() or 1.0
    # which frequencies: the request decides when it is a list; otherwise the stored modes tell (C12 checks the band)
    fr = z['freq']; b = s['band']
    if b.get('freq_idx') is not None: fi = [int(x) for x in b['freq_idx']]
    elif b.get('T_lb') is None or b.get('T_ub') is None: fi = list(range(len(fr)))
    else:
        near = lambda x: int(np.abs(fr - x).argmin())
        fi = list(range(near(1 / b['T_ub']), near(1 / b['T_lb']) + 1))
    r['fidx'] = fi
    r['full'] = bool(p.get('fullspectrum') or len(fr) == n and n > 2)
    r['P'] = [[fxc(m[f, k] / pw, 20000) for k in range(m.shape[1])] for f in range(nf)]
    r['W'] = [fx(x / ws, 10000) for x in W]
    r['A'] = [[[fxc(a[f, i, k] / (pw * ws * g), 2000) for k in range(a.shape[2])] for i in range(nt)] for f in range(nf)]
    x = s['data2'] if s.get('data2') is not None else s['data']
    c = s.get('cplx2') if s.get('data2') is not None else s.get('cplx')
    r['d'] = x if c else [[[v, 0] for v in row] for row in x]
    # the record of the fit itself: coefficients at the blocks against the eigenvalues (relative to the largest)
    E = np.real(z['eigs'])[fi]; top = max(E.max(), 1e-300)
    r['fit'] = bool(s.get('data2') is None and p.get('mean_type', 'longtime') == 'longtime' and not p.get('normalize_data') and E.max() > 1e-6 * max(np.real(z['eigs']).max(), 1e-300))
    k = np.sqrt(top) * n / 1.0
    r['lam'] = [[fx(v / top, 10000) for v in row] for row in E]
    r['B'] = [[[fxc(a[f, i, q] / k, 10000) for q in range(a.shape[2])] for i in range(nt)] for f in range(nf)]
    nov = -(-n * p.get('overlap', 0) // 100); r['stride'] = n - nov; r['nb'] = (s.get('nt0', nt) - nov) // (n - nov)
    return r
