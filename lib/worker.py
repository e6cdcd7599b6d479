"""Runs scenarios on the real code, serially or as one rank of an MPI job.  argv[1]: directory with scens.json;
appends one JSON line per scenario to out.<rank>.  Everything the code writes stays below that directory."""
import sys, os, json, traceback, importlib
d = os.path.abspath(sys.argv[1])
os.chdir(d)
N = int(os.environ.get('VP_N', '0'))
real_stdout = os.dup(1)
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)
import warnings; warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
comm0 = None; rank = 0; sync = None
if N > 0:
    from mpi4py import MPI
    comm0 = MPI.COMM_WORLD; rank = comm0.Get_rank(); sync = comm0.Dup()
    assert comm0.Get_size() == N


def clean(o):
    if isinstance(o, dict): return {str(k): clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [clean(v) for v in o]
    if isinstance(o, np.ndarray): return clean(o.tolist())
    if isinstance(o, np.generic): return clean(o.item())
    if isinstance(o, complex): return [o.real, o.imag]
    return o


def main():
    scens = json.load(open('scens.json'))
    out = open('out.%d' % rank, 'w')
    out.write(json.dumps(dict(i=-1)) + '\n'); out.flush()
    for i, s in enumerate(scens):
        os.chdir(d)
        sd = os.path.join(d, 'sc%d' % i)
        if rank == 0: os.makedirs(sd, exist_ok=True)
        comm = None
        if sync is not None:
            sync.Barrier()
            comm = comm0.Dup() if s.get('dup', True) else comm0
        try:
            mod = importlib.import_module(s['mod'])
            obs = getattr(mod, s['op'])(s, comm, sd)
            if obs is None: obs = {}
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt): raise
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if '/pyspod/' in f.filename]
            obs = dict(error='%s: %s' % (type(e).__name__, str(e)[:300]),
                       where=('%s:%s' % (os.path.basename(loc[-1].filename), loc[-1].name)) if loc else
                       'harness %s:%d' % (tb[-1].filename, tb[-1].lineno), incode=bool(loc))
        out.write(json.dumps(dict(i=i, obs=clean(obs))) + '\n'); out.flush()
        os.chdir(d)
    out.close()
    if sync is not None: sync.Barrier()


main()
sys.stdout.flush()
if N > 0: MPI.Finalize()
os._exit(0)
