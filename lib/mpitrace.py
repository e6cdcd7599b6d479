"""Records what one rank does with communicators, MPI files, requests and the file system below a directory: one program
(a list of operations) per rank, in the vocabulary of MpiSem.  The library is not changed: the communicator is an argument,
MPI.File and MPI.Request are looked up by name, file-system calls are seen through audit events and os.stat."""
import os, sys, threading
from mpi4py import MPI

_I, _F, _R = MPI.Intracomm, MPI.File, MPI.Request
log = None            # list of operations while recording
base = None           # directory whose files count
state = dict(next=0, ids={}, seq={}, chan={}, mute=0)
ALL = ['Barrier', 'barrier', 'Allreduce', 'allreduce', 'Allgather', 'allgather', 'Allgatherv', 'Alltoall', 'Alltoallv', 'Alltoallw', 'alltoall', 'Reduce_scatter', 'Reduce_scatter_block']
DOWN = ['Bcast', 'bcast', 'Scatter', 'scatter', 'Scatterv']
UP = ['Reduce', 'reduce', 'Gather', 'gather', 'Gatherv']
SCAN = ['Scan', 'scan', 'Exscan', 'exscan']
NB = dict(Ibarrier='all', Ibcast='down', Iallreduce='all', Igather='up', Igatherv='up', Iallgather='all', Iallgatherv='all', Iscatter='down', Iscatterv='down', Ireduce='up', Ialltoall='all', Ialltoallv='all', Iscan='scan')


def cid(comm, key=None):
    """communicator -> index of its entry in the table (members as world ranks); same key, same communicator"""
    c = getattr(comm, '_vid', None)
    return c


def nbytes(buf):
    """bytes sent or received by a buffer specification, -1 when not known"""
    try:
        if buf is None or buf is MPI.IN_PLACE: return -1
        if isinstance(buf, (list, tuple)):
            if len(buf) == 2 and isinstance(buf[1], MPI.Datatype):
                n = memoryview(buf[0]).nbytes; e = buf[1].Get_size()
                return n // e * e if e else 0
            if len(buf) == 3 and isinstance(buf[1], int) and isinstance(buf[2], MPI.Datatype): return buf[1] * buf[2].Get_size()
            return -1
        return memoryview(buf).nbytes
    except Exception: return -1


def counts(buf, n):
    """per-rank byte counts of a v-type receive buffer"""
    try:
        c, t = buf[1], buf[-1]
        if isinstance(c, (tuple, list)) and len(c) == 2 and not isinstance(c[0], int): c = c[0]
        return [int(c[i]) * t.Get_size() for i in range(n)]
    except Exception: return []


def opname(op):
    if op is None: return 'SUM'
    for n in ('SUM', 'MAX', 'MIN', 'PROD', 'LAND', 'LOR', 'BAND', 'BOR', 'LXOR', 'MAXLOC', 'MINLOC'):
        if op is getattr(MPI, n, None): return n
    return getattr(op, '__name__', 'op')


def emit(**k):
    o = dict(k='', name='', comm=0, root=-1, op='', cnt=-1, cnts=[], seq=0, ch=0, of=[], act='', path='', cls='')
    o.update(k); log.append(o)
    return len(log)           # index of the operation, from 1


def coll(comm, name, cls, root=-1, op='', cnt=-1, cnts=(), k='coll'):
    c = comm._vid
    state['seq'][c] = state['seq'].get(c, 0) + 1
    return emit(k=k, name=name, comm=c, root=root, op=op, cnt=cnt, cnts=list(cnts), seq=state['seq'][c], cls=cls)


def chan(comm, src, dst, tag, way):
    key = '%s/%d>%d/%d' % (comm._vid, src, dst, tag)
    q = (key, way); state['chan'][q] = state['chan'].get(q, 0) + 1
    return key, state['chan'][q]


class TRequest(_R):
    @classmethod
    def Waitall(cls, reqs, statuses=None):
        note_wait(reqs)
        return _R.Waitall(list(reqs), statuses)

    @classmethod
    def waitall(cls, reqs, statuses=None):
        note_wait(reqs); return _R.waitall(list(reqs), statuses)

    def Wait(self, status=None):
        note_wait([self]); return _R.Wait(self, status)

    def wait(self, status=None):
        note_wait([self]); return _R.wait(self, status)


def note_wait(reqs):
    if log is None: return
    w = [getattr(r, '_at', 0) for r in reqs]
    w = [x for x in w if x]
    if w: emit(k='wait', name='Waitall', of=w)


def req(r, at):
    t = TRequest(r); t._at = at; t._keep = r
    return t


class TComm(_I):
    def __new__(cls, comm, vid=None):
        o = super().__new__(cls, comm)
        o._vid = vid
        return o

    def Send(self, buf, dest, tag=0): _send(self, nbytes(buf), dest, tag, True); return _I.Send(self, buf, dest, tag)
    def Ssend(self, buf, dest, tag=0): _send(self, nbytes(buf), dest, tag, True); return _I.Ssend(self, buf, dest, tag)
    def send(self, obj, dest, tag=0): _send(self, -1, dest, tag, True); return _I.send(self, obj, dest, tag)
    def Isend(self, buf, dest, tag=0): at = _send(self, nbytes(buf), dest, tag, False); return req(_I.Isend(self, buf, dest, tag), at)
    def isend(self, obj, dest, tag=0): at = _send(self, -1, dest, tag, False); return req(_I.isend(self, obj, dest, tag), at)
    def Recv(self, buf, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None): return self._rv(True, True, buf, source, tag, status)
    def recv(self, buf=None, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None): return self._rv(False, True, buf, source, tag, status)
    def Irecv(self, buf, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG): return self._rv(True, False, buf, source, tag, None)

    def _rv(self, upper, blocking, buf, source, tag, status):
        if log is not None and (source == MPI.ANY_SOURCE): state['any'] = True
        t = 0 if tag == MPI.ANY_TAG else tag
        at = 0
        if log is not None:
            ch, n = chan(self, source, self.Get_rank(), t, 'r')
            at = emit(k='recv', name='Recv' if blocking else 'Irecv', ch=ch, seq=n, cnt=nbytes(buf) if upper else -1)
            if blocking: emit(k='wait', name='Recv', of=[at])
        if not blocking: return req(_I.Irecv(self, buf, source, tag), at)
        return _I.Recv(self, buf, source, tag, status) if upper else _I.recv(self, buf, source, tag, status)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=MPI.ANY_SOURCE, recvtag=MPI.ANY_TAG, status=None):
        if log is not None:
            a = _send(self, nbytes(sendbuf), dest, sendtag, False)
            ch, n = chan(self, source, self.Get_rank(), 0 if recvtag == MPI.ANY_TAG else recvtag, 'r')
            b = emit(k='recv', name='Sendrecv', ch=ch, seq=n, cnt=nbytes(recvbuf)); emit(k='wait', name='Sendrecv', of=[a, b])
        return _I.Sendrecv(self, sendbuf, dest, sendtag, recvbuf, source, recvtag, status)

    def Split(self, color=0, key=0):
        at = coll(self, 'Split', 'all') if log is not None else 0
        return child(self, _I.Split(self, color, key))

    def Dup(self, info=None):
        if log is not None: coll(self, 'Dup', 'all')
        return child(self, _I.Dup(self))


def child(parent, c):
    if c == MPI.COMM_NULL: return c
    m = c.Get_group().Translate_ranks(list(range(c.Get_size())), MPI.COMM_WORLD.Get_group())
    key = 'c%s#%d:%s' % (parent._vid, state['seq'].get(parent._vid, 0), '-'.join(map(str, m)))
    state['ids'][key] = list(m)
    return TComm(c, key)


def _send(self, cnt, dest, tag, blocking):
    if log is None: return 0
    ch, n = chan(self, self.Get_rank(), dest, tag, 's')
    at = emit(k='send', name='Send' if blocking else 'Isend', ch=ch, seq=n, cnt=cnt)
    if blocking: emit(k='wait', name='Send', of=[at])
    return at


def _mk(name, cls, nb=False):
    f = getattr(_I, name)
    def g(self, *a, **k):
        if log is None: return f(self, *a, **k)
        kw = dict(k); root = -1; op = ''; cnt = -1; cnts = []
        low = name[0].islower()
        pos = list(a)
        if cls in ('down', 'up'):
            i = {'Bcast': 1, 'bcast': 1, 'Ibcast': 1, 'Scatter': 2, 'scatter': 1, 'Scatterv': 2, 'Iscatter': 2, 'Iscatterv': 2, 'Reduce': 3, 'reduce': 2, 'Ireduce': 3, 'Gather': 2, 'gather': 1, 'Gatherv': 2, 'Igather': 2, 'Igatherv': 2}[name]
            root = int(kw.get('root', pos[i] if len(pos) > i else 0))
        if name.lower().lstrip('i') in ('allreduce', 'reduce', 'scan', 'exscan', 'reduce_scatter'):
            i = 1 if low else 2
            op = opname(kw.get('op', pos[i] if len(pos) > i else None))
        if not low and name != 'Barrier' and name != 'Ibarrier':
            b = pos[0] if pos else kw.get('sendbuf', kw.get('buf'))
            cnt = nbytes(b)
            if 'gatherv' in name.lower() and self.Get_rank() == root or name == 'Allgatherv':
                cnts = counts(pos[1] if len(pos) > 1 else kw.get('recvbuf'), self.Get_size())
        at = coll(self, name[0].upper() + name[1:] if name in ('barrier',) else name, cls, root, op, cnt, cnts, k='icoll' if nb else 'coll')
        r = f(self, *a, **k)
        return req(r, at) if nb else r
    return g


for _n in ALL: setattr(TComm, _n, _mk(_n, 'all'))
for _n in DOWN: setattr(TComm, _n, _mk(_n, 'down'))
for _n in UP: setattr(TComm, _n, _mk(_n, 'up'))
for _n in SCAN:
    if hasattr(_I, _n): setattr(TComm, _n, _mk(_n, 'scan'))
for _n, _c in NB.items():
    if hasattr(_I, _n): setattr(TComm, _n, _mk(_n, _c, True))


class TFile(_F):
    @classmethod
    def Open(cls, comm, filename, amode=MPI.MODE_RDONLY, info=MPI.INFO_NULL):
        vid = getattr(comm, '_vid', None)
        fs('W' if comm.Get_size() == 1 and amode & (MPI.MODE_WRONLY | MPI.MODE_RDWR) else None, filename)
        if log is not None and vid is not None: coll(comm, 'File.Open', 'all', op='w' if amode & (MPI.MODE_WRONLY | MPI.MODE_RDWR) else 'r')
        f = _F.Open(comm, filename, amode, info)
        t = TFile(f); t._c = comm if vid is not None else None; t._keep = f
        if vid is not None: fs('C' if amode & (MPI.MODE_WRONLY | MPI.MODE_RDWR) else 'R', filename)
        return t


def _mkf(name):
    f = getattr(_F, name)
    def g(self, *a, **k):
        c = getattr(self, '_c', None)
        if log is not None and c is not None: coll(c, 'File.' + name, 'all')
        return f(self, *a, **k)
    return g


for _n in ['Close', 'Set_size', 'Set_view', 'Write_all', 'Read_all', 'Sync', 'Write_at_all', 'Read_at_all', 'Preallocate', 'Set_atomicity', 'Write_ordered', 'Read_ordered']: setattr(TFile, _n, _mkf(_n))
for K in (TComm, TFile, TRequest): K.__module__ = 'mpi4py.MPI'


def rel(p):
    try:
        p = os.path.abspath(os.fsdecode(os.fspath(p)))
    except TypeError: return None
    return p[len(base) + 1:] if p.startswith(base + os.sep) else None


def fs(act, p):
    if log is None or act is None or state['mute']: return
    if not isinstance(p, (str, bytes, os.PathLike)): return
    p = rel(p)
    if p is None: return
    if log and log[-1]['k'] == 'fs' and log[-1]['act'] == act and log[-1]['path'] == p: return
    emit(k='fs', act=act, path=p)


def audit(ev, args):
    if log is None or state['mute']: return
    try:
        if ev == 'open':
            p, mode, flags = args
            w = bool(flags & (os.O_WRONLY | os.O_CREAT | os.O_TRUNC)) if isinstance(flags, int) else ('w' in (mode or '') or 'a' in (mode or ''))     # r+ (open_memmap) does not change anything by itself
            fs('W' if w else 'R', p)
        elif ev == 'os.mkdir': fs('E', args[0])
        elif ev in ('os.remove', 'os.rmdir', 'shutil.rmtree'): fs('D', args[0])
        elif ev == 'os.rename': fs('D', args[0]); fs('W', args[1])
        elif ev in ('os.listdir', 'os.scandir'): fs('L', args[0])
        elif ev in ('os.truncate', 'os.link', 'os.symlink'): fs('W', args[-1])
    except Exception: pass


sys.addaudithook(audit)
_stat, _makedirs = os.stat, os.makedirs


def stat(p, *a, **k):
    fs('T', p)
    return _stat(p, *a, **k)


def makedirs(name, mode=0o777, exist_ok=False):
    fs('E' if exist_ok else 'M', name)
    state['mute'] += 1
    try: return _makedirs(name, mode, exist_ok)
    finally: state['mute'] -= 1


def start(comm, sd):
    """returns the tracing communicator; recording starts"""
    global log, base
    base = os.path.abspath(sd)
    state.update(ids={}, seq={}, chan={}, mute=0); state.pop('any', None)
    m = comm.Get_group().Translate_ranks(list(range(comm.Get_size())), MPI.COMM_WORLD.Get_group())
    state['ids']['w'] = list(m)
    MPI.File = TFile; MPI.Request = TRequest; os.stat = stat; os.makedirs = makedirs
    log = []
    return TComm(comm, 'w')


def stop():
    global log
    l, log = log, None
    MPI.File = _F; MPI.Request = _R; os.stat = _stat; os.makedirs = _makedirs
    return l
