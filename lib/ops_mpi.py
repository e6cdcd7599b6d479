"""Library operations run under the recorder, one after the other without any synchronisation added in between."""
import os, glob, shutil
import numpy as np
import mpitrace
from ops_spod import arr, make, source, dofit, resdir, weights_of


def prog(s, comm, sd):
    """steps: fit | refit | coeffs | conv | recon | podfit | podcoeffs | npy | dist | lose (remove files, not recorded)"""
    import pyspod.spod.utils as us, pyspod.pod.utils as pu, pyspod.utils.parallel as up
    from pyspod.utils import io as pio, weights as uw
    import pyspod.utils.postproc as post
    import pyspod.spod.standard, pyspod.spod.streaming, pyspod.pod.standard
    os.makedirs(sd, exist_ok=True)
    for k in s.get('mkdirs', []): os.makedirs(os.path.join(sd, k), exist_ok=True)
    src = None
    if s.get('kind', 'array') != 'array': src = source(s, comm, sd)
    if s.get('spoil') and comm.rank == 0:      # environment: one of the input files is missing or not like the others
        import xarray as xr
        i, how = s['spoil']; f = src[0][i]
        if how == 'gone': os.remove(f)
        elif how == 'junk':
            with open(f, 'r+b') as h: h.write(b'not what it was ' * 8)
        elif how == 'var':
            with xr.open_dataset(f) as h: d = h.load()
            os.remove(f); d.drop_vars(s['spoilvar']).to_netcdf(f)
        elif f.endswith('.nc'):
            with xr.open_dataset(f) as h: d = h.load()
            os.remove(f); d.isel(x0=[0] * (d.sizes['x0'] + 1)).to_netcdf(f)
        else:
            import h5py
            with h5py.File(f) as h: d = h['data'][()]
            os.remove(f)
            with h5py.File(f, 'w') as h: h['data'] = d[:, :, :, :1].repeat(d.shape[3] + 1, 3) if how == 'shape' else d * np.nan
    comm.Barrier()
    before = sorted(os.path.relpath(os.path.join(a, d), sd) for a, ds, _ in os.walk(sd) for d in ds)
    comm.Barrier()
    tc = mpitrace.start(comm, sd)
    err = None; log = None
    try:
        path = cd = None
        for st in s['steps']:
            a = st['do']
            if a in ('fit', 'podfit'):
                t = dict(s, params=dict(s['params'], **st.get('params', {})), cls='pod' if a == 'podfit' else st.get('cls', 'std'))
                o, p, w = make(t, tc, sd)
                d, vs = src if src is not None else source(t, None, sd)
                if vs is not None and t['cls'] in ('std', 'pod'): o.fit(d, variables=vs)
                else: o.fit(d) if t['cls'] == 'pod' else o.fit(data_list=d)
                path = o.savedir_sim if hasattr(o, 'savedir_sim') else o._savedir_sim
            elif a == 'coeffs': fc, cd = us.compute_coeffs_op(arr(s), path, savedir=st.get('sub'), svd=st.get('svd', False), comm=tc, **st.get('band', {}))
            elif a == 'conv': fc, cd = us.compute_coeffs_conv(arr(s), path, savedir=st.get('sub'), comm=tc, **st.get('band', {}))
            elif a == 'recon': us.compute_reconstruction(cd, st.get('times', 'all'), savedir=st.get('sub'), filename=st.get('file'), comm=tc)
            elif a == 'podcoeffs': fc, cd = pu.compute_coeffs_op(arr(s), path, savedir=st.get('sub'), comm=tc)
            elif a == 'podrecon': pu.compute_reconstruction(cd, st.get('times', 'all'), savedir=st.get('sub'), filename=st.get('file'), comm=tc)
            elif a == 'via':        # the same through the methods of the class
                fc, cd = o.compute_coeffs_op(arr(s), path)
                o.compute_reconstruction(cd, st.get('times', 'all'))
            elif a == 'ortho': us.check_orthogonality(path, st['m1'], st['m2'], [st['f']], comm=tc)
            elif a == 'npy':
                x, _, _ = up.distribute(np.arange(float(np.prod(st['shape']))).reshape(st['shape']), tc)
                f = os.path.join(sd, st.get('file', 'x.npy'))
                up.npy_save(tc, f, x, axis=int(np.argmax(st['shape'])))
                y = up.npy_load(tc, f, axis=int(np.argmax(st['shape'])))
            elif a == 'pvar': up.pvar(up.distribute(arr(s), tc)[0], tc)
            elif a == 'dist': up.distribute_data(arr(s), tc); up.distribute(arr(s), tc); up.distribute_dimension(arr(s), 0, tc)
            elif a == 'allreduce': up.allreduce(np.arange(6.0), tc)
            elif a == 'getmodes': post.get_modes_at_freq(path, st['f'])
            elif a == 'lose':       # environment: files of an interrupted or foreign run; everybody is at rest
                mpitrace.state['mute'] += 1
                keep, mpitrace.log = mpitrace.log, None
                comm.Barrier()
                if comm.rank == 0:
                    fl = sorted(glob.glob(os.path.join(sd, st['what'])))
                    for f in [fl[int(q * (len(fl) - 1))] for q in st['which']] if fl else []:
                        if os.path.exists(f): os.remove(f)
                comm.Barrier()
                mpitrace.log = keep; mpitrace.state['mute'] -= 1
                mpitrace.coll(tc, 'Environment', 'all')
    except Exception as e:
        import traceback
        err = '%s: %s @ %s' % (type(e).__name__, str(e)[:200], [f.name for f in traceback.extract_tb(e.__traceback__) if '/pyspod/' in f.filename][-1:])
    finally: log = mpitrace.stop()
    ids = dict(mpitrace.state['ids'])
    r = dict(log=log, ids=ids, before=before, err=err, wild=bool(mpitrace.state.get('any')))
    comm.Barrier()
    if comm.rank == 0: shutil.rmtree(sd, ignore_errors=True)
    return r
