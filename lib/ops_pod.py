"""POD fit on some ranks, projection and reconstruction by others: integers for T_Pod."""
import os, shutil, yaml
import numpy as np
from ops_spod import arr, make, source, resdir
from ops_proj import newdata, times, sampled, BIGV
from proj import *


def pod(s, comm, sd):
    import pyspod.pod.utils as pu
    rank = comm.rank if comm is not None else 0
    bar = (lambda: None) if comm is None else comm.Barrier
    fr = s.get('fitranks', 0)
    got = None
    if comm is None: got = one_fit(s, None, sd)
    elif fr == 0:
        if rank == 0: got = one_fit(s, None, sd)
    else:
        sub = comm.Split(0 if rank < fr else 1, rank)
        if rank < fr: got = one_fit(s, sub, sd, s.get('viaclass') and fr == comm.size)
        sub.Free()
    bar()
    if comm is not None: got = comm.bcast(got, root=0)
    path = got['path']
    d = newdata(s)
    if s.get('xr'):
        import xarray as xr
        d = xr.DataArray(d, dims=['t'] + ['d%d' % i for i in range(d.ndim - 1)])
    recs = []
    for m in s['sizes']:
        if m > (comm.size if comm else 0): continue
        sub = comm.Split(0 if rank < max(m, 1) else 1, rank) if comm is not None else None
        if rank < max(m, 1):
            cm = sub if m else None
            rk = dict(dtype='single') if s.get('single') else {}
            fc, cd = pu.compute_coeffs_op(d, path, savedir='p%d' % m, comm=cm, **rk)
            co = np.array(np.load(fc)) * s['gaincoef'] if s.get('gaincoef') else None
            fr_, _ = pu.compute_reconstruction(cd, s['times'], coeffs=co, comm=cm, **(dict(savedir='sub', filename='rr') if s.get('named') else {}), **rk)
            if cm is not None: cm.Barrier()
            if rank == 0:
                r = dict(a=np.load(fc), p=np.load(os.path.join(cd, 'modes_r.npy')), l=np.load(os.path.join(cd, 'ltm.npy')), R=np.load(fr_))
                recs.append(dict(digest(s, np.asarray(d), r, got), m=m))
        if sub is not None: sub.Free()
        bar()
    if rank == 0 and 'cls' in got:
        r = got['cls']; recs.append(dict(digest(dict(s, times=s['times'], data2=None, gaincoef=None, single=None), arr(s), r, got), m=-1))
    if rank == 0: shutil.rmtree(sd, ignore_errors=True)
    return dict(recs=recs) if rank == 0 else {}


def one_fit(s, comm, sd, via=False):
    o, _, _ = make(dict(s, cls='pod'), comm, sd)
    d, _ = source(s, comm, sd)
    o.fit(d)
    path = resdir(o)
    if comm is not None: comm.Barrier()
    g = dict(path=path, eigs_attr=np.array(o.eigs).copy(), nms=int(o.n_modes_save), nt=int(o.nt), nx=int(o.nx))
    if via:
        a = arr(s)
        fc, cd = o.compute_coeffs_op(a, path)
        fr, _ = o.compute_reconstruction(cd, time_idx=s['times'])
        if comm is not None: comm.Barrier()
        g['cls'] = dict(a=np.load(fc), p=np.load(os.path.join(cd, 'modes_r.npy')), l=np.load(os.path.join(cd, 'ltm.npy')), R=np.load(fr))
        if comm is not None: comm.Barrier()
    return g


def digest(s, d, r, got):
    nv = s['nv']; xs = tuple(s['xshape']); N = int(np.prod(xs)) * nv
    S = 20000
    path = got['path']
    x = arr(s); nt = x.shape[0]; x = x.reshape(nt, N)
    z = np.load(os.path.join(path, 'eigs.npz'))['eigs']
    W = np.load(os.path.join(path, 'weights.npy')); M = np.load(os.path.join(path, 'modes.npy'))
    with open(os.path.join(path, 'params_modes.yaml')) as f: y = yaml.safe_load(f)
    single = bool(s.get('single')) or s['params'].get('dtype') == 'single'
    same = s.get('data2') is None
    K = int(min(s['params'].get('n_modes_save', 10 ** 9), nt))
    zero = s['params'].get('mean_type') == 'zero'
    x0 = x - (0 if zero else x.mean(axis=0))
    w = np.ones(N) if s.get('weights') is None else np.array(s['weights'], float) / s.get('wscale', 1) * s.get('wgain', 1)
    nw = bool(s['params'].get('normalize_weights'))
    Wf = W.reshape(N) if W.size == N else np.zeros(N)
    if nw: w = Wf
    ws = w.max()
    E = float((x0 ** 2 * w).sum())
    u = (E / ws) ** .5 or 1.0
    a, p = r['a'], r['p']
    nt2 = d.shape[0]; D = d.reshape(nt2, N); D0 = D - D.mean(axis=0)
    u2 = u if same else max(u, (float((D0 ** 2 * w).sum()) / ws) ** .5)
    mx = max(abs(x.max(initial=0)), abs(x.min(initial=0)), 1e-30)
    null = 1e-2 if single else 1e-9
    # everything at the level of rounding: zero energy
    flat = E <= (1e-9 if single else 1e-20) * ws * x.size * mx ** 2
    if flat: u = mx; u2 = max(mx, np.abs(D).max(initial=0))
    lam = np.asarray(z, float)
    res = dict(K=K, nt=nt, nt2=nt2, N=N, xs=list(xs), nv=nv, same=same, zero=zero, flat=bool(flat), single=single, nw=nw,
               shapes=[list(z.shape), list(M.shape), list(W.shape), list(a.shape), list(p.shape), list(r['l'].shape), list(r['R'].shape)],
               nms=[got['nms'], int(y['n_modes_save']) if isinstance(y.get('n_modes_save'), (int, float)) and y['n_modes_save'] < 1e9 else -1, int(s['params'].get('n_modes_save', -1))], gnt=got['nt'], gnx=got['nx'], kinds=[str(np.asarray(q).dtype.kind) for q in (z, M, a, r['R'])])
    res['fin'] = bool(all(np.isfinite(np.asarray(q)).all() for q in (z, M, W, a, p, r['l'], r['R'])))
    ok = res['fin'] and M.size == N * K and lam.shape == (nt,) and p.shape == M.shape and a.shape == (K, nt2)
    res['whole'] = bool(ok)
    res['wdiff'] = BIGV if W.size != N else rel9(Wf, w)
    res['attr'] = rel9(got['eigs_attr'], z)
    if not ok:
        return dict(res, pdiff=0, mean=0, L=[], live=[], P=[], A=[], AU=[], X=[], D=[], W=[], R=[], ts=[])
    t6 = 1e3 if single else 1
    P = M.reshape(N, K)
    res['pdiff'] = int(min(rel9(p, M) / t6, BIGV))
    res['mean'] = int(min(rel9(r['l'].reshape(N), D.mean(axis=0)) / t6, BIGV)) if np.abs(D.mean(axis=0)).max() > 1e-7 * mx else 0
    top = max(lam[0], 1e-300)
    res['live'] = [bool(v > null * top) and not flat for v in lam]
    res['neg'] = bool((lam < 0).any()); res['noninc'] = bool((np.diff(lam) > 1e-9 * t6 * top).any())
    if flat: res['L'] = [fx(v / (ws * mx ** 2), S) for v in lam]
    else: res['L'] = [fx(v / E, S) for v in lam]
    g = s.get('gaincoef') or 1.0
    sel = list(range(nt2)) if nt2 <= 14 else sampled(s['times'], nt2)
    res['ts'] = sel
    R = r['R'].reshape(r['R'].shape[0], -1)
    # points without weight where the numbers would leave the range of the specification are left out
    am = lambda q: np.abs(np.nan_to_num(np.asarray(q, complex))).max(axis=0, initial=0)
    keep = np.ones(N, bool)
    if R.shape[1] == N: keep = (w > 0) | ((am(x0 / u) <= 1.5) & (am(D0 / u2) <= 1.5) & (am(P.T) * ws ** .5 <= 2.2) & (am((R - r['l'].reshape(-1)) / u2) <= 2.2))
    res['N'] = int(keep.sum())
    res['P'] = [fxa(P[keep, k].real * ws ** .5, S) for k in range(K)]
    res['A'] = [[fx(a[k, i] / (u2 * ws ** .5), S) for i in sel] for k in range(K)]
    res['AU'] = [[fx(a[k, i] * g / (u2 * ws ** .5), S) for i in sel] for k in range(K)]
    res['X'] = [fxa(x0[i][keep] / u, S) for i in range(nt)]          # mean removed record of the fit
    res['D'] = [fxa(D0[i][keep] / u2, S) for i in sel]
    res['W'] = [fx(v / ws, 10000) for v in w[keep]]
    res['R'] = [fxa((q - r['l'].reshape(-1))[keep] / u2, S) if q.size == N else [] for q in R]
    t = s['times']
    res['tkind'] = t if isinstance(t, str) else ('none' if t is None else 'list')
    res['tlist'] = list(t) if isinstance(t, list) else []
    return res
