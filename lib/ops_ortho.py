"""The orthogonality check on chosen modes, by some ranks: integers for T_Ortho."""
import os, shutil
import numpy as np
from ops_spod import dofit, resdir
from proj import *


def ortho(s, comm, sd):
    import pyspod.spod.utils as us, pyspod.utils.postproc as post
    rank = comm.rank if comm is not None else 0
    bar = (lambda: None) if comm is None else comm.Barrier
    path = None
    fr = s.get('fitranks', 0)
    sub = comm.Split(0 if rank < max(fr, 1) else 1, rank) if comm is not None else None
    if rank < max(fr, 1):
        cm = sub if fr else None
        path = resdir(dofit(s, cm, sd))
    if sub is not None: sub.Free()
    bar()
    if comm is not None: path = comm.bcast(path, root=0)
    recs = []
    for m in s['sizes']:
        if m > (comm.size if comm else 0): continue
        sub = comm.Split(0 if rank < max(m, 1) else 1, rank) if comm is not None else None
        if rank < max(m, 1):
            ok, O = us.check_orthogonality(path, s['m1'], s['m2'], [s['f']], comm=sub if m else None)
            recs.append((m, np.array(ok), np.array(O)))
        if sub is not None: sub.Free()
        bar()
    N = int(np.prod(s['xshape'])) * s['nv']
    M = np.asarray(post.get_modes_at_freq(path, s['f'])); W = np.load(os.path.join(path, 'weights.npy')).reshape(N)
    M = M.reshape(N, -1) * np.sqrt(W)[:, None]
    bar()
    out = []
    a, b = np.atleast_1d(s['m1']), np.atleast_1d(s['m2'])
    for m, ok, O in recs:
        good = O.shape == (len(a), len(b)) and ok.shape == O.shape
        out.append(dict(m=m, good=bool(good), O=fxc(O, 10 ** 7) if good else [], ok=ok.tolist() if good else []))
    if rank == 0: shutil.rmtree(sd, ignore_errors=True)
    return dict(recs=out, P=[fxc(M[:, k], 5000) for k in range(M.shape[1])], N=N, a=[int(x) for x in a], b=[int(x) for x in b])
