"""Readers: every value of the record is its C-order position over (time, space..., variable)."""
import os
import numpy as np


def content(s, t0, t1):
    """values of the times t0..t1-1, shape (t, space..., nv)"""
    sh = (s['nt'],) + tuple(s['xshape']) + (s['nv'],)
    return np.arange(int(np.prod(sh)), dtype=float).reshape(sh)[t0:t1] + s.get('base', 0)


def pieces(s):
    k = 0
    for n, cp in zip(s['splits'], s['cplx']):
        a = content(s, k, k + n)
        if cp == 1: a = a + 1j * (a - s.get('base', 0) + 1)
        elif cp == 2: a = a + 0j
        elif cp == 3:                                    # imaginary parts in its last snapshot only
            b = a - s.get('base', 0) + 1; b[:-1] = 0; a = a + 1j * b
        yield k, a
        k += n


def tag(a, base=0):
    a = np.asarray(a)
    def q(x):
        x = np.asarray(x, dtype=float).reshape(-1)
        ok = np.isfinite(x) & (np.rint(np.where(np.isfinite(x), x, 0)) == x) & (np.abs(np.where(np.isfinite(x), x, 0)) < 1e9)
        return np.where(ok, np.where(ok, x, 0), -7).astype(np.int64).tolist()
    return [list(a.shape), q(a.real - base if base else a.real), q(a.imag) if np.iscomplexobj(a) else []]


def read(s, comm, sd):
    import pyspod.utils.reader as R
    rank = comm.rank if comm else 0
    if rank == 0: os.makedirs(sd, exist_ok=True)
    if comm: comm.Barrier()
    nv, xdim = s['nv'], len(s['xshape'])
    dt = s.get('dtype', 'float64')
    if s['kind'] == '1':
        d = []
        for k, a in pieces(s):
            if not s['vaxis']: a = a[..., 0]
            if s.get('mixed') and not np.iscomplexobj(a):          # data sets of different types, each just wide enough
                a = a.astype('int8' if a.max() < 128 else s['mixed'])
            elif s.get('dtypein') and not np.iscomplexobj(a): a = a.astype(s['dtypein'])
            if s.get('layout') == 'F': a = np.asfortranarray(a)
            if s.get('layout') == 'step':
                b = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype); b[::2] = a; a = b[::2]
            if s.get('xr'):
                import xarray as xr
                a = xr.DataArray(a, dims=['t'] + ['d%d' % i for i in range(a.ndim - 1)])
            d.append(a)
        if len(d) == 1 and s.get('bare'): d = d[0]
        rd = R.reader_1stage(data_list=d, xdim=xdim, dtype=dt, comm=comm, nv=nv)
    elif s['kind'] == '2':
        import xarray as xr
        vs = ['v%d' % i for i in s.get('names', range(nv))]
        files = []
        for i, (k, a) in enumerate(pieces(s)):
            f = os.path.join(sd, 'in_%03d.nc' % i); files.append(f)
            if rank == 0:
                tn = s.get('tname', 'time')
                dims = [tn] + ['x%d' % j for j in range(xdim)]
                order = list(range(nv))
                if s.get('varorder'): order = order[::-1]
                dv = {}
                if s.get('zfirst'): dv['zy'] = (('x0',), np.zeros(a.shape[1]))
                if s.get('extra'): dv['aaa'] = (dims, -5 - a[..., 0])
                for j in order:
                    w = list(range(len(dims)))
                    if s.get('dimorder') and j > 0: w = w[::-1] if j == 1 else w[1:] + w[:1]      # dimensions of this variable in another order
                    dv[vs[j]] = ([dims[q] for q in w], np.transpose(a[..., j], w).astype(s.get('dtypein') or 'float64'))
                if s.get('scalarvar'): dv['zz'] = (('x0',), np.zeros(a.shape[1]))
                ds = xr.Dataset(dv, coords={tn: np.arange(k, k + a.shape[0]) * 1.0 + 100})
                if s.get('tunits'): ds[tn].attrs['units'] = 'hours since 1900-01-01'
                enc = {v: dict(dtype='i4', scale_factor=0.5, add_offset=3.0, _FillValue=-999999) for v in vs} if s.get('packed') else {}
                ds.to_netcdf(f, encoding=enc); ds.close()
        if comm: comm.Barrier()
        rd = R.reader_2stage(data_list=files, xdim=xdim, dtype=np.dtype(dt).type, comm=comm, nv=nv, variables=vs, nreaders=s.get('nreaders'))
    else:
        import h5py
        files = []
        a = content(s, 0, s['nt'])
        for t in range(s['nt']):
            f = os.path.join(sd, 'in_%05d.mat' % t); files.append(f)
            if rank == 0:
                with h5py.File(f, 'w') as h: h[s.get('key', 'data')] = np.transpose(a[t].astype(s.get('dtypein') or 'float64'), (3, 0, 1, 2))
        if comm: comm.Barrier()
        if s.get('shuffle'): files = [files[j] for j in np.random.default_rng(s['nt']).permutation(len(files))]
        rd = R.reader_mat(data_list=files, xdim=xdim, dtype=np.dtype(dt).type, comm=comm, nv=nv)
    if s.get('chunks') and getattr(rd, '_nchunks', None): rd._nchunks = s['chunks']   # as for records above 256 MB per chunk
    if s.get('small'):   # the path for more than 2^31 elements, at small scale
        class NP:
            def __getattr__(self, k): return getattr(np, k)
            def iinfo(self, t): return type('I', (), dict(max=0, min=0))
        R.np, keep = NP(), R.np
    try:
        r = dict(nt=int(rd.nt), xshape=[int(x) for x in rd.xshape], nx=int(rd.nx), isreal=bool(rd.is_real), axis=int(rd.max_axis), req=[], dict=[])
        r['gshape'] = [int(x) for x in rd.shape[1:]]
        for q in s['req']:
            if q == 'all': ts, te = 0, s['nt']; x = rd.get_data()
            elif len(q) == 1: ts, te = q[0], q[0] + 1; x = rd.get_data(q[0])
            else: ts, te = q; x = rd.get_data_for_time(ts, te)
            if isinstance(x, dict):
                p = [[int(x[k]['s']), int(x[k]['e']), int(x[k]['v'].shape[0])] for k in sorted(x)]
                r['dict'].append(p)
                x = np.concatenate([x[k]['v'] for k in sorted(x)])
            r['req'].append([ts, te] + tag(x, s.get('base', 0)))
    finally:
        if s.get('small'): R.np = keep
    if comm: comm.Barrier()
    if rank == 0:
        import shutil; shutil.rmtree(sd, ignore_errors=True)
    return r


def rdata(s, comm, sd):
    """io.read_data"""
    import pyspod.utils.io as io
    os.makedirs(sd, exist_ok=True)
    a = np.arange(int(np.prod(s['shape'])), dtype=s['dtype']).reshape(s['shape'])
    f = os.path.join(sd, 'x.' + s['ext'])
    if s['ext'].lower() == 'npy': np.save(open(f, 'wb'), a)
    elif s['ext'].lower() == 'nc':
        import xarray as xr
        xr.Dataset({'v': (['d%d' % i for i in range(a.ndim)], a)}).to_netcdf(f)
    else:
        import h5py
        with h5py.File(f, 'w') as h: h['v'] = a; h['w'] = 2 * a
    d = io.read_data(data_file=f, format=s.get('format'), comm=comm)
    x = d if s['ext'].lower() == 'npy' else d['v']
    r = dict(part=tag(np.asarray(x)), w=tag(np.asarray(d['w']))[1] if s['ext'].lower() == 'mat' else [])
    if hasattr(d, 'close'): d.close()
    return r
