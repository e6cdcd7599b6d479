"""Operations on pyspod.utils.parallel: distribution, .npy I/O, statistics."""
import os
import numpy as np


def tags(shape, dtype='int64', order='C'):
    """array whose element at C-order position i has value i"""
    a = np.arange(int(np.prod(shape))).reshape(shape)
    if dtype == 'bool': return np.array(a % 2, dtype=bool, order=order)
    a = a.astype(dtype)
    if np.dtype(dtype).kind == 'c': a = a + 1j * (a + 1)
    if np.dtype(dtype).kind == 'f': a = a + np.dtype(dtype).type(0.25)
    return np.array(a, order=order)


def untag(a):
    """C-order tags of an array made by tags(); -1 where the value is not a tag"""
    a = np.asarray(a); x = a.reshape(-1)
    if a.dtype.kind == 'c':
        t = np.rint(x.real); ok = x == t + 1j * (t + 1)
    elif a.dtype.kind == 'f':
        t = x - 0.25; ok = (np.rint(t) == t)
    else: t = x.astype(np.int64); ok = np.ones(x.shape, bool)
    with np.errstate(all='ignore'):
        t = np.where(ok & np.isfinite(t.astype(float)), t, -1).astype(np.int64)
    t = np.where((t >= 0) & (t < 10 ** 9), t, -1)
    return t.tolist()


def wrap(a, s):
    if s.get('xr'):
        import xarray as xr
        return xr.DataArray(a, dims=['d%d' % i for i in range(a.ndim)])
    if s.get('layout') == 'neg':      # a view with a negative stride along the last axis
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if s.get('layout') == 'step':
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype); b[..., ::2] = a; return b[..., ::2]
    if s.get('layout') == 'memmap':
        fn = os.path.join(s['_sd'], 'mm_%s.npy' % s['_rank']); np.save(fn, a); return np.lib.format.open_memmap(fn, mode='r')
    return a


def dist(s, comm, sd):
    import pyspod.utils.parallel as up
    os.makedirs(sd, exist_ok=True)
    s = dict(s, _sd=sd, _rank=comm.rank if comm else 0)
    a = wrap(tags(s['shape'], s.get('dtype', 'float64'), s.get('order', 'C')), s)
    others, axes = [], []
    if s['fn'] == 'distribute_data':
        d, ax, g = up.distribute_data(data=a, comm=comm)
        # weights and modes of the same grid through the axis found
        xs = list(s['shape'][1:])
        for extra in ([], [2]):
            w = tags(xs + extra)
            ww = up.distribute_dimension(data=w, max_axis=ax, comm=comm)
            idx = np.unravel_index(np.array(untag(ww), dtype=int), xs + extra)[ax] if ww.size else np.zeros(0, int)
            others.append([int(idx.min()), int(idx.max()) + 1] if idx.size else None)
        # the same grid found from a snapshot (weights) and by the reader of a record
        w = tags(xs)
        ww, ax2, _ = up.distribute(data=w, comm=comm)
        axes = [int(ax2)]
        idx = np.unravel_index(np.array(untag(ww), dtype=int), xs)[int(ax2)] if ww.size else np.zeros(0, int)
        others.append([int(idx.min()), int(idx.max()) + 1] if idx.size else None)
        if np.dtype(s.get('dtype', 'float64')).kind == 'f':
            from pyspod.utils.reader import reader_1stage
            axes.append(int(reader_1stage(a, len(xs) - 1, np.float64, comm, xs[-1]).max_axis) if len(xs) > 1 and xs[-1] > 1 else
                        int(reader_1stage(a, len(xs), np.float64, comm, 1).max_axis))
    elif s['fn'] == 'distribute':
        d, ax, g = up.distribute(data=a, comm=comm)
    else:
        d = up.distribute_dimension(data=a, max_axis=s['axis'], comm=comm); ax, g = s['axis'], ()
    d = np.asarray(d)
    return dict(axis=int(ax), gshape=[int(x) for x in g], shape=list(d.shape), tags=untag(d), others=others, axes=axes)


def lay(a, how):
    if how == 'F': return np.asfortranarray(a)
    if how == 'neg': return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if how == 'step':
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype); b[..., ::2] = a; return b[..., ::2]
    if how == 'T': return np.ascontiguousarray(a.T).T
    return a


def npy(s, comm, sd):
    """save collectively, then load collectively (another axis / counts); or load a file written by numpy"""
    import pyspod.utils.parallel as up
    rank = comm.rank if comm else 0
    P = comm.size if comm else 1
    fn = os.path.join(sd, 'x.npy')
    g = tags(s['shape'], s['dtype'], 'C')
    r = {}
    if s.get('swap'): g = g.astype(g.dtype.newbyteorder())
    if rank == 0:
        os.makedirs(sd, exist_ok=True)
        if s.get('stale'):
            with open(fn, 'wb') as f: f.write(b'\x93stale' * s['stale'])
    if comm: comm.Barrier()
    if s.get('counts') is not None:
        k = s['counts']; ax = s['axis']
        ix = [slice(None)] * g.ndim; st = sum(k[:rank]); ix[ax] = slice(st, st + k[rank])
        a = lay(g[tuple(ix)], s['lay'][rank])
        before = a.tobytes()
        up.npy_save(comm, fn, a, axis=ax)
        r['same'] = a.tobytes() == before
    elif rank == 0: np.save(fn, np.asfortranarray(g) if s.get('forder') else g)
    if comm: comm.Barrier()
    if rank == 0:
        x = np.load(fn)
        m = np.load(fn, mmap_mode='r')
        r['file'] = [list(x.shape), untag(x), str(x.dtype.newbyteorder('=')) == str(g.dtype.newbyteorder('='))]
        r['extra'] = os.path.getsize(fn) - (m.offset + x.nbytes)
    if comm: comm.Barrier()
    cnt = s.get('lcounts')
    y = up.npy_load(comm, fn, axis=s['laxis'], count=cnt[rank] if cnt else None)
    r['part'] = [list(y.shape), untag(y), str(y.dtype.newbyteorder('=')) == str(g.dtype.newbyteorder('='))]
    return r


def stat(s, comm, sd):
    """collective mean/variance/count of a distributed vector"""
    import pyspod.utils.parallel as up
    x = np.array(s['parts'][comm.rank if comm else 0], dtype=float)
    if s.get('cplx'): x = x.reshape(-1, 2); x = x[:, 0] + 1j * x[:, 1]
    x = (x + s.get('shift', 0.0)) * s.get('gain', 1.0)
    if s.get('dtype'): x = x.astype(s['dtype'])
    if s.get('twod') and x.size % 2 == 0: x = x.reshape(2, -1)
    b = x.tobytes()
    v, m, n = up.pvar(x, comm=comm)
    m = complex(m)
    return dict(v=float(np.real(v)), mr=m.real, mi=m.imag, n=int(n), same=x.tobytes() == b)
