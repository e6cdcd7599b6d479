"""Replays histories of block-store runs (spec/BlockStore.tla): saving, interrupted, reusing runs on any number of ranks."""
import os, sys, glob, json, shutil, resource, signal
import numpy as np
import ops_spod
from mpi4py import MPI

HOOK = dict(on=False, n=0, at=0, dir=None, kind='before', fired=False)


class Interrupted(BaseException): pass


def touch(path):
    """a file of the block store is about to be opened for writing"""
    if not HOOK['on'] or os.path.basename(os.path.dirname(os.fspath(path))) != 'blocks': return
    HOOK['n'] += 1
    if HOOK['n'] == HOOK['at']:
        HOOK['fired'] = True
        if HOOK['kind'] == 'exit': os._exit(9)
        if HOOK['kind'] == 'partial': resource.setrlimit(resource.RLIMIT_FSIZE, (140, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        else: raise Interrupted()


def audit(ev, args):
    if ev == 'os.remove' and HOOK['on'] and HOOK.get('clean') and isinstance(args[0], (str, bytes)): touch(os.fsdecode(args[0]))
    if ev == 'open' and HOOK['on'] and isinstance(args[0], (str, bytes)) and isinstance(args[1], str) and ('w' in args[1] or 'a' in args[1] or 'x' in args[1] or '+' in args[1]):
        touch(os.fsdecode(args[0]))


sys.addaudithook(audit)
_File = MPI.File


class TFile(_File):
    @classmethod
    def Open(cls, comm, filename, amode=MPI.MODE_RDONLY, info=MPI.INFO_NULL):
        if amode & (MPI.MODE_WRONLY | MPI.MODE_RDWR): touch(os.fspath(filename))
        return _File.Open(comm, filename, amode, info)


TFile.__module__ = 'mpi4py.MPI'
MPI.File = TFile


def replay(s, comm, sd):
    rank = comm.rank if comm is not None else 0
    size = comm.size if comm is not None else 1
    out = []
    subs = {}
    for e in s['hist']:
        ob = {}
        if e['a'] == 'delete':
            if rank == 0:
                nb, nf = s['nb'], s['nf']
                for b, f in e['files']:
                    for p in glob.glob(os.path.join(sd, 'res', '*', 'blocks', 'fft_block%08d_freq%08d.npy' % (b * e['at'][0], f * e['at'][1]))): os.remove(p)
        else:
            n = min(e['n'], size)
            if s['kind'] == 'nc': n = max(n, 1)
            if n > 0 and n not in subs: subs[n] = comm.Split(0 if rank < n else 1, rank)
            me = rank < max(n, 1)
            if me:
                c = subs[n] if n > 0 else None
                t = dict(s, **s['recs'][str(e['d'])])
                t['params'] = dict(s['params'], savefft=e['save'], reuse_blocks=e['reuse'])
                if t['kind'] == 'nc':
                    t['params'].update(savefreq_disk=False, savefreq_disk2=True)
                at = 0
                if e['crash']:
                    tot = s['nb'] * s['nf']
                    at = max(1, -(-e['crash'] * tot // 8))
                    if e.get('clean'): at = max(2, at)      # the removal of the old files is interrupted, at least one being gone
                HOOK.update(clean=bool(e.get('clean')), on=at > 0, n=0, at=at, fired=False, kind='before')
                lim = resource.getrlimit(resource.RLIMIT_FSIZE)
                if at and n == 0:
                    # a serial run that dies: in a child process, killed at the file operation or in the middle of writing
                    pid = os.fork()
                    if pid == 0:
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                        HOOK['kind'] = 'partial' if e.get('partial') else 'exit'
                        if e.get('clean'):
                            HOOK['kind'] = 'exit'
                            ls, order = os.listdir, np.random.default_rng(e['crash'])
                            os.listdir = lambda *a: [str(x) for x in order.permutation(sorted(ls(*a)))]
                        try: ops_spod.dofit(t, None, sd)
                        except BaseException: os._exit(1)
                        os._exit(0)
                    st = os.waitpid(pid, 0)[1]
                    HOOK['on'] = False
                    if st == 0 or os.WIFSIGNALED(st) or os.WEXITSTATUS(st) == 9: ob['crashed'] = True
                    else: ob['error'] = 'interrupted run raised before it was interrupted (status %s)' % st
                    me = False
            if me:
                try:
                    try: o = ops_spod.dofit(t, c, os.path.join(sd))
                    finally:
                        HOOK['on'] = False
                        resource.setrlimit(resource.RLIMIT_FSIZE, lim)
                    r = ops_spod.read_results(o, t, c)
                    if rank == 0:
                        r['nfiles'] = len([p for p in os.listdir(os.path.join(o.savedir_sim, 'blocks')) if p.startswith('fft_block')]) if os.path.isdir(os.path.join(o.savedir_sim, 'blocks')) else 0
                    ob['r'] = r
                    if HOOK['fired']: ob['ignored'] = True
                except (Interrupted, OSError) as x:
                    if HOOK['fired']: ob['crashed'] = True
                    else: ob['error'] = '%s: %s' % (type(x).__name__, str(x)[:200])
                except Exception as x:
                    import traceback
                    if HOOK['fired'] and n == 0: ob['crashed'] = True
                    else:
                        tb = [f for f in traceback.extract_tb(x.__traceback__) if '/pyspod/' in f.filename]
                        if not tb: raise
                        ob['error'] = '%s: %s at %s:%s' % (type(x).__name__, str(x)[:160], os.path.basename(tb[-1].filename), tb[-1].name)
        out.append(ob)
        if comm is not None: comm.Barrier()
        stop = 'error' in ob
        if comm is not None: stop = comm.allreduce(int(stop)) > 0
        if stop: break
    if comm is not None: comm.Barrier()
    if rank == 0: shutil.rmtree(sd, ignore_errors=True)
    return dict(events=out)
