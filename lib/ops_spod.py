"""Scenario operations that run SPOD / POD fits through the public interface and return what a user can see."""
import os, glob, hashlib, yaml
import numpy as np


def arr(s):
    """the record of a scenario: ints [t][p] (real) or [t][p][2] (complex), p over space then variables"""
    a = np.array(s['data'], dtype=float)
    if s.get('cplx'): a = a[..., 0] + 1j * a[..., 1]
    if s.get('cols'): a = a * np.array(s['cols'])           # columns of very different size
    a = a * s.get('gain', 1.0) + s.get('shift', 0.0)
    shape = (a.shape[0],) + tuple(s['xshape'])
    if s['nv'] > 1 or s.get('vaxis'): shape += (s['nv'],)
    a = a.reshape(shape)
    dt = s.get('dtypein')
    if dt: a = a.astype(dt)
    if s.get('layout') == 'F': a = np.asfortranarray(a)
    return a


def split(a, splits):
    if not splits: return a
    out, k = [], 0
    for n in splits:
        out.append(a[k:k + n]); k += n
    assert k == a.shape[0]
    return out


def source(s, comm, sd):
    a = arr(s)
    kind = s.get('kind', 'array')
    if kind == 'array':
        d = split(a, s.get('splits'))
        if s.get('mixed'):                     # data sets of different types; each value is one of its type
            for j, (x, q) in enumerate(zip(d, s['mixed'])):
                y = x.real if np.dtype(q).kind != 'c' else x
                d[j] = y.astype(q, order='K'); assert np.array_equal(d[j], x)
        if s.get('aslist') and not isinstance(d, list): d = [d]
        if s.get('xr'):
            import xarray as xr
            f = lambda x: xr.DataArray(x, dims=['t'] + ['d%d' % i for i in range(x.ndim - 1)])
            d = [f(x) for x in d] if isinstance(d, list) else f(d)
        return d, None
    if kind == 'nc':
        files, vs = write_nc(a if (s['nv'] > 1 or s.get('vaxis')) else a[..., None], s['splits'] or [a.shape[0]], sd, comm, s.get('nctype'))
        return files, vs
    if kind == 'mat':
        files = write_mat(a if (s['nv'] > 1 or s.get('vaxis')) else a[..., None], sd, comm)
        return files, None
    raise ValueError(kind)


def write_nc(a, splits, sd, comm, nctype=None, t0=0):
    import xarray as xr
    nv = a.shape[-1]
    vs = ['v%d' % i for i in range(nv)]
    files = [os.path.join(sd, 'in_%03d.nc' % i) for i in range(len(splits))]
    if comm is None or comm.rank == 0:
        k = 0
        dims = ['time'] + ['x%d' % i for i in range(a.ndim - 2)]
        for f, n in zip(files, splits):
            ds = xr.Dataset({v: (dims, a[k:k + n, ..., i].astype(nctype or a.dtype)) for i, v in enumerate(vs)},
                            coords={'time': np.arange(k, k + n) * 1.0 + t0})
            ds.to_netcdf(f)
            ds.close(); k += n
    if comm is not None: comm.Barrier()
    return files, vs


def write_mat(a, sd, comm):
    import h5py
    files = [os.path.join(sd, 'in_%05d.mat' % i) for i in range(a.shape[0])]
    if comm is None or comm.rank == 0:
        for i, f in enumerate(files):
            with h5py.File(f, 'w') as h: h['data'] = np.transpose(a[i], (3, 0, 1, 2))
    if comm is not None: comm.Barrier()
    return files


def weights_of(s):
    w = s.get('weights')
    if w is None: return None
    x = np.array(w, dtype=float) / s.get('wscale', 1) * s.get('wgain', 1)
    f = s.get('wform') or ('full', 'flat', 'full', 'pts', 'nov', 'full', 'col', 'full')[int(sum(w)) % 8]        # the same weights as a user may write them: full shape, flat vector, column, points by variables, without the variables axis
    x = x.reshape({'full': tuple(s['xshape']) + (s['nv'],), 'flat': (-1,), 'col': (-1, 1), 'pts': (-1, s['nv']), 'nov': tuple(s['xshape']) + ((s['nv'],) if s['nv'] > 1 else ())}[f])
    if s.get('params', {}).get('normalize_weights') and x.shape == tuple(s['xshape']) and not s.get('wform'): x = x[..., None]      # known finding of C16
    if s.get('wdtype'): x = x.astype(s['wdtype'])
    return {'weights_name': 'w', 'weights': x}


def rawc(a):
    a = np.asarray(a)
    return [a.real.tolist(), a.imag.tolist()] if np.iscomplexobj(a) else a.tolist()


def sha(a):
    a = np.ascontiguousarray(a)
    return hashlib.sha1(a.tobytes() + str((a.shape, a.dtype)).encode()).hexdigest()[:12]


def make(s, comm, sd):
    p = dict(s['params'])
    p['savedir'] = os.path.join(sd, s.get('dir', 'res'))
    p.setdefault('n_space_dims', len(s['xshape'])); p.setdefault('n_variables', s['nv'])
    if s.get('cls', 'std') == 'std':
        from pyspod.spod.standard import Standard as K
    elif s['cls'] == 'str':
        from pyspod.spod.streaming import Streaming as K
    else:
        from pyspod.pod.standard import Standard as K
    w = weights_of(s)
    return K(params=p, weights=w, comm=comm), p, w


def resdir(o):
    """result directory of a fit (the SPOD classes name it; POD puts modes<n> below savedir)"""
    if hasattr(o, 'savedir_sim'): return o.savedir_sim
    c = sorted(glob.glob(os.path.join(o.savedir, 'modes*')), key=os.path.getmtime)
    return c[-1]


def dofit(s, comm, sd):
    o, p, w = make(s, comm, sd)
    d, vs = source(s, comm, sd)
    if s.get('cls', 'std') == 'std' and vs is not None: o.fit(d, variables=vs)
    elif s.get('cls') == 'pod' and vs is not None: o.fit(d, variables=vs)
    else: o.fit(data_list=d)
    return o


def read_results(o, s, comm, full=True):
    """what the result directory and the attributes say (rank 0 reads the files)"""
    import pyspod.utils.postproc as post
    r = {}
    r['attr_eigs'] = sha(o.eigs); r['attr_freq'] = sha(o.freq)
    r['nb'] = int(o.n_blocks); r['nf'] = int(o.n_freq); r['nms'] = int(o.n_modes_save)
    r['nt'] = int(o.nt); r['nx'] = int(o.nx)
    if comm is not None: comm.Barrier()
    if comm is None or comm.rank == 0:
        sdir = o.savedir_sim
        r['dirname'] = os.path.basename(sdir)
        z = np.load(os.path.join(sdir, 'eigs_freq.npz'))
        r['file_eigs'] = sha(z['eigs']); r['file_freq'] = sha(z['freq'])
        r['eigs'] = rawc(z['eigs']); r['eigs_shape'] = list(z['eigs'].shape)
        r['freq'] = z['freq'].tolist()
        if 'eigs_c_l' in z:
            r['cl'] = rawc(z['eigs_c_l']); r['cu'] = rawc(z['eigs_c_u'])
        w = np.load(os.path.join(sdir, 'weights.npy')); r['weights'] = w.tolist(); r['wshape'] = list(w.shape)
        m = np.load(os.path.join(sdir, 'ltm_modes.npy')); r['ltm'] = rawc(m); r['ltmshape'] = list(m.shape)
        with open(os.path.join(sdir, 'params_modes.yaml')) as f: r['yaml'] = {k: v for k, v in yaml.safe_load(f).items() if isinstance(v, (int, float, str, bool))}
        r['mfiles'] = sorted(os.path.basename(x) for x in glob.glob(os.path.join(sdir, 'modes', '*')))
        if full and (s['params'].get('savefreq_disk', True) or s['params'].get('savefreq_disk2', False)):
            mm, sh = [], []
            for f in range(len(z['freq'])):
                x = np.array(post.get_modes_at_freq(sdir, f))
                sh.append(list(x.shape)); mm.append([x.real.reshape(-1).tolist(), x.imag.reshape(-1).tolist()])
                r['mdtype'] = str(x.dtype)
            r['modes'] = mm; r['mshapes'] = sh
    return r


def fit(s, comm, sd):
    o = dofit(s, comm, sd)
    r = read_results(o, s, comm)
    if s.get('blocks') and (comm is None or comm.rank == 0):
        b = []
        nb, nf = o.n_blocks, o.n_freq
        for i in range(nb):
            b.append([])
            for f in range(nf):
                x = np.load(os.path.join(o.savedir_sim, 'blocks', 'fft_block%08d_freq%08d.npy' % (i, f)))
                b[-1].append([x.real.reshape(-1).tolist(), x.imag.reshape(-1).tolist(), list(x.shape)])
        r['blocks'] = b
        r['nblockfiles'] = len(glob.glob(os.path.join(o.savedir_sim, 'blocks', '*')))
    import shutil
    if comm is not None: comm.Barrier()
    if comm is None or comm.rank == 0: shutil.rmtree(sd, ignore_errors=True)
    return r


def wfit(s, comm, sd):
    """effective weights after a fit"""
    o = dofit(s, comm, sd)
    if comm is not None: comm.Barrier()
    r = {}
    if comm is None or comm.rank == 0:
        r['w'] = np.load(os.path.join(resdir(o), 'weights.npy')).reshape(-1).tolist()
        import shutil; shutil.rmtree(sd, ignore_errors=True)
    return r


def stream(s, comm, sd):
    """streaming fit; the snapshots requested from the reader (in order) are reported for every rank"""
    import shutil
    from pyspod.utils import reader as rd
    reqs = []
    def wrap(K):
        f = K.get_data
        def g(self, ts=None, *a, **k):
            x = f(self, ts, *a, **k); reqs.append(int(ts)); return x
        K.get_data = g
        return f
    Ks = [K for K in (rd.reader_1stage, rd.reader_2stage) if 'get_data' in K.__dict__]
    old = [wrap(K) for K in Ks]
    try: o = dofit(s, comm, sd)
    finally:
        for K, f in zip(Ks, old): K.get_data = f
    r = read_results(o, s, comm)
    # the first snapshot may be looked at once more beforehand (to learn the size of the data)
    r['reqs'] = reqs[1:] if reqs[:2] == [0, 0] else reqs
    if comm is not None: comm.Barrier()
    if comm is None or comm.rank == 0: shutil.rmtree(sd, ignore_errors=True)
    return r
