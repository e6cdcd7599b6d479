"""Sequences of calls that share the caller's objects; contents of the objects and results after every call."""
import os, copy, glob, shutil, hashlib
import numpy as np
from ops_spod import arr, weights_of, resdir


def digest(x):
    """contents of an object, containers included"""
    if isinstance(x, dict): return ('d', tuple((k, digest(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)): return (type(x).__name__, tuple(digest(v) for v in x))
    if hasattr(x, 'dims'): return ('x', tuple(x.dims), digest(np.asarray(x.values)))
    if isinstance(x, np.ndarray): return (x.shape, str(x.dtype), hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest())
    return repr(x)


def close(a, b, tol):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape: return False
        if x.dtype.kind in 'US' or y.dtype.kind in 'US':
            if not np.array_equal(x, y): return False
            continue
        if not np.array_equal(np.isfinite(x), np.isfinite(y)): return False
        x, y = np.where(np.isfinite(x), x, 0), np.where(np.isfinite(y), y, 0)
        m = max(np.abs(x).max(initial=0), np.abs(y).max(initial=0))
        if m and np.abs(x - y).max() > tol * m: return False
    return True


def calls(s, comm, sd):
    import pyspod.spod.utils as us
    import pyspod.pod.utils as pu
    import pyspod.utils.postproc as post
    import pyspod.utils.errors as ue
    import pyspod.utils.parallel as up
    from pyspod.spod.standard import Standard
    from pyspod.spod.streaming import Streaming
    from pyspod.pod.standard import Standard as Pod
    from pyspod.emulation.base import Base as Emu
    rank = comm.rank if comm is not None else 0
    bar = (lambda: None) if comm is None else comm.Barrier
    a = arr(s); b = a[::-1].copy() * 0.5
    if s.get('layout') == 'F': b = np.asfortranarray(b)
    real = np.isrealobj(a)
    xs = tuple(s['xshape'])
    base = os.path.join(sd, 'base')
    P = dict(s['params'], n_space_dims=len(xs), n_variables=s['nv'], savedir=base)
    PS = dict(P, savedir=os.path.join(sd, 'st')); PS.pop('normalize_weights', None); PS.pop('normalize_data', None)
    PP = dict(time_step=1.0, n_space_dims=len(xs), n_variables=s['nv'], n_modes_save=2, savedir=os.path.join(sd, 'pod'), mean_type='longtime')
    if s['params'].get('normalize_weights'): PP['normalize_weights'] = True
    O = dict(data=a, other=b, weights=weights_of(s) or {'weights_name': 'w', 'weights': np.ones(xs + (s['nv'],))}, parameters=P, sparameters=PS, pparameters=PP)
    if s.get('xr'):
        import xarray as xr
        for k in ('data', 'other'): O[k] = xr.DataArray(O[k], dims=['t'] + ['d%d' % i for i in range(a.ndim - 1)])
    k = a.shape[0] // 2
    O['parts'] = [O['data'][:k], O['data'][k:]]
    O['freq_idx'] = list(s['fidx']); O['time_idx'] = list(s['tidx']); O['ids'] = [1, 0]
    O['x'] = [np.linspace(0, 1, n)[::(-1 if i % 2 else 1)].copy() for i, n in enumerate(xs)]; O['coords'] = [.4] * len(xs)
    O['u'] = np.real(a).reshape(a.shape[0], -1)[:, 0].copy()
    O['small'] = np.array([[1., -2, 3], [0, 0, 0], [4, 5, -6]]) * (1 if real else 1 + 1j)
    # a fit to work with
    o = Standard(params=P, weights=O['weights'], comm=comm).fit(data_list=O['parts'])
    path = o.savedir_sim; bar()
    O['freq'] = np.array(o.freq)
    pod = Pod(params=PP, weights=O['weights'], comm=comm)
    if real: pod.fit([O['data']]); bar(); ppath = resdir(pod)
    fc, cd = us.compute_coeffs_op(a, path, savedir='pre', comm=comm); bar()
    O['coefficients'] = np.array(np.load(fc)) * 2
    if real:
        pfc, pcd = pu.compute_coeffs_op(a, ppath, savedir='pre', comm=comm); bar()
        O['pcoefficients'] = np.array(np.load(pfc)) * 2
    ld = lambda *fs: [np.load(f) for f in fs]
    def coeffs(f, d, *ar, **kw):
        fc, cd = f(O[d], *ar, comm=comm, savedir='q', **kw); bar()
        return ld(fc, os.path.join(cd, 'ltm.npy'))
    def recon(f, cd, *ar, **kw):
        fr, _ = f(cd, *ar, comm=comm, savedir='q', **kw); bar()
        return ld(fr)
    def res(o, dr=None):
        bar(); d = dr or o.savedir_sim
        return [np.abs(np.asarray(o.eigs))] + ([o.freq] if hasattr(o, 'freq') else []) + ld(os.path.join(d, 'weights.npy')) + (ld(os.path.join(d, 'ltm_modes.npy')) if dr is None else [])
    def l_err(d, r): return [np.array([ue.compute_l_errors(O[d] if not hasattr(O[d], 'dims') else O[d].values, O[r] if not hasattr(O[r], 'dims') else O[r].values, norm_type=n) for n in ('l1', 'l2', 'linf', 'l1_rel', 'l2_rel', 'linf_rel')] + [ue.compute_h_errors(np.asarray(O[d]), np.asarray(O[r]), .5)])]
    def scal():
        e = Emu(dict(data_type='real' if real else 'complex', normalization=s['norm'])); v = e.scaler(O['small']); z = e.scale_data(O['small'], vec=v)
        O['vector'] = O.get('vector', np.array(v)); O['scaled'] = O.get('scaled', np.array(z))
        return [v, z, e.descale_data(O['scaled'], vec=O['vector'])]
    def npy():
        f = os.path.join(sd, 'd.npy')
        d, ax, _ = up.distribute_data(O['data'], comm); up.npy_save(comm, f, np.asarray(d), axis=ax + 1); bar()
        return ld(f)
    from ops_plot import Recorder
    D4 = np.asarray(O['data']).reshape((a.shape[0],) + xs + (s['nv'],))
    O['grid4'] = D4.copy()
    O['lon'] = [np.linspace(0, 360, n, endpoint=False) + .1 for n in xs]
    O['loss'] = np.abs(O['u']) + .1
    def drawn(f, values=True):
        """what is drawn; of modes, whose phase is free, only where"""
        if rank != 0: return [np.zeros(1)]
        with Recorder() as rec: f()
        return [np.asarray(q) for g in rec.figs for x in g['axes'] for q in [z for d in x['drawn'] for z in (d[1] if values else d[1][:2])] + [z for l in x['lines'] for z in (l if values else l[:1])]]
    def plots():
        post.plot_eigs(O['eigsarr']); post.plot_eigs_vs_frequency(O['eigsarr'], O['freq']); post.plot_eigs_vs_period(O['eigsarr'][1:], O['freq'][1:])
        post.plot_coeffs(O['coefficients'], coeffs_idx=O['ids'], path=sd)
        post.plot_data_tracers(np.real(O['grid4']), coords_list=[tuple(O['coords'])], x=O['x'], time_limits=O['tlim'])
        post.plot_compare_time_series(O['u'], O['loss']); post.plot_training_histories(O['loss'], O['u'])
        if len(xs) == 2:
            for x in (O['x'], O['lon']): post.plot_2d_data(O['grid4'], time_idx=O['time_idx'], vars_idx=O['vars'], x1=x[0], x2=x[1])
            post.generate_2d_subplot(np.real(O['grid4'][0, ..., 0]), 'a', np.real(O['grid4'][1, ..., 0]), 'b')
    def maps():
        kw = dict(freq_req=O['freq'][1], freq=O['freq'], vars_idx=O['vars'], modes_idx=O['ids'][:1])
        post.plot_mode_tracers(path, coords_list=[tuple(O['coords'])], x=O['x'], **kw)
        if len(xs) == 2:
            for x in (O['x'], O['lon']):
                for q in (dict(), dict(shift180=True), dict(fftshift=True, imaginary=True, shift180=True, plot_max=True)):
                    post.plot_2d_modes_at_frequency(path, x1=x[0], x2=x[1], **q, **kw)
        if len(xs) == 3:
            for i in range(3): post.plot_3d_modes_slice_at_frequency(path, x1=O['x'][0], x2=O['x'][1], x3=O['x'][2], slice_dim=i, imaginary=bool(i % 2), plot_max=True, fftshift=True, **kw)
    O['vars'] = list(range(s['nv']))[::-1]; O['tlim'] = [0, 4]
    O['eigsarr'] = np.array(o.eigs)
    fid = tuple(O['freq_idx'])
    C = {
        'fit': lambda: res(Standard(params=P, weights=O['weights'], comm=comm).fit(data_list=O['parts'])),
        'fit one': lambda: res(Standard(params=P, weights=O['weights'], comm=comm).fit(data_list=[O['data']])),
        'refit': lambda: res(o.fit(data_list=O['parts'])),
        'fit other': lambda: res(Standard(params=dict(P, savedir=os.path.join(sd, 'oth')), weights=O['weights'], comm=comm).fit(data_list=[O['other']])),
        'stream': lambda: res(Streaming(params=PS, weights=O['weights'], comm=comm).fit(data_list=O['parts'])),
        'coeffs': lambda: coeffs(us.compute_coeffs_op, 'data', path, freq_idx=O['freq_idx']),
        'coeffs svd': lambda: coeffs(us.compute_coeffs_op, 'other', path, svd=True),
        'coeffs single': lambda: coeffs(us.compute_coeffs_op, 'data', path, dtype='single', freq_idx=O['freq_idx'][:1]),
        'conv': lambda: coeffs(us.compute_coeffs_conv, 'data', path, freq_idx=O['freq_idx']),
        'recon': lambda: recon(us.compute_reconstruction, cd, O['time_idx']),
        'recon given': lambda: recon(us.compute_reconstruction, cd, 'half', coeffs=O['coefficients']),
        'recon single': lambda: recon(us.compute_reconstruction, cd, O['time_idx'], coeffs=O['coefficients'], dtype='single'),
        'ortho': lambda: [np.asarray(x) for x in us.check_orthogonality(path, O['ids'][:1], O['ids'][1:], O['freq_idx'], comm=comm)],
        'nearest': lambda: [np.array(post.find_nearest_freq(.2, O['freq']))] + [np.array(x, float) for x in post.find_nearest_coords(O['coords'], O['x'], xs)],
        'errors': lambda: l_err('data', 'other'),
        'spectrum': lambda: [np.asarray(post.compute_energy_spectrum(O['u']))],
        'scaling': scal, 'npy': npy, 'plots': lambda: drawn(plots), 'maps': lambda: drawn(maps, False),
        'pvar': lambda: [np.array(up.pvar(up.distribute_data(np.asarray(O['data']), comm)[0], comm))] if comm is not None else [np.zeros(1)],
        'allmodes': lambda: [np.abs(np.asarray(post.get_all_modes(path)))] if rank == 0 else [np.zeros(1)],
    }
    if real: C.update({
        'pod': lambda: res(Pod(params=PP, weights=O['weights'], comm=comm).fit(O['parts']), ppath),
        'pod refit': lambda: res(pod.fit([O['data']]), ppath),
        'pod coeffs': lambda: coeffs(pu.compute_coeffs_op, 'data', ppath),
        'pod coeffs other': lambda: coeffs(pu.compute_coeffs_op, 'other', ppath),
        'pod recon': lambda: recon(pu.compute_reconstruction, pcd, O['time_idx']),
        'pod recon given': lambda: recon(pu.compute_reconstruction, pcd, O['time_idx'], coeffs=O['pcoefficients']),
    })
    first = {k: digest(v) for k, v in O.items()}
    seen, out = {}, []
    tol = 1e-3 if s['params'].get('dtype') == 'single' else 1e-8
    for name in s['calls']:
        if name not in C: continue
        r = [np.array(x) for x in C[name]()]
        bar()
        for k, v in O.items():
            if k not in first: first[k] = digest(v)
        ch = sorted(k for k, v in O.items() if digest(v) != first[k])
        if comm is not None: ch = sorted(set(sum(comm.allgather(ch), [])))
        tl = 1e-3 if 'single' in name else tol
        cl = next((i for i, x in enumerate(seen.get(name, [])) if close(r, x, tl)), None)
        if cl is None: seen.setdefault(name, []).append(r); cl = len(seen[name]) - 1
        if comm is not None: cl = max(comm.allgather(cl))
        out.append(dict(key=name, objs=[[k, int(k in ch)] for k in O], res=cl))
    bar()
    if rank == 0: shutil.rmtree(sd, ignore_errors=True)
    return dict(out=out)
