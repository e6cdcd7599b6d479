"""Analysis objects fitted again and again: what their attributes, getters and files say after every step (T_Object)."""
import os, shutil, yaml
import numpy as np
from ops_spod import arr, source
from proj import *


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return bool(a.shape == b.shape and (np.array_equal(a, b) or (a.dtype.kind in 'fc' and np.array_equal(a, b, equal_nan=True))))


def look(s, o, p, f, comm, ev):
    import pyspod.utils.postproc as post
    rank, size = (comm.rank, comm.size) if comm is not None else (0, 1)
    bar = (lambda: None) if comm is None else comm.Barrier
    pod = p['cls'] == 'pod'
    ints = lambda t: [int(x) for x in t]
    sd = os.path.join(o.savedir, 'modes%d' % o.n_modes_save) if pod else o.savedir_sim
    w = np.asarray(o.weights).reshape(-1)
    ws = comm.gather(w, root=0) if comm is not None else [w]
    bar()
    a = arr(f); full = a if a.ndim == len(f['xshape']) + 2 else a[..., None]
    d = dict(nt=int(a.shape[0]), xs=list(f['xshape']), nv=f['nv'], cplx=bool(f.get('cplx')))
    q = dict(nt=int(o.nt), nx=int(o.nx), nv=int(o.nv), xdim=int(o.xdim), xshape=ints(o.xshape), dim=int(o.dim), shape=ints(o.shape), kept=int(o.n_modes_save),
             n=0 if pod else int(o.n_dft), nb=0 if pod else int(o.n_blocks), nf=0 if pod else int(o.n_freq), nm=0 if pod else int(o.n_modes))
    z = np.load(os.path.join(sd, 'eigs.npz' if pod else 'eigs_freq.npz'))
    W = np.load(os.path.join(sd, 'weights.npy')).reshape(-1)
    r = dict(p=p, d=d, o=q, rank=rank, err='', dt=float(o.dt) == f['params']['time_step'], eigs=same(o.eigs, z['eigs']))
    # the slabs are cut along the longest axis: the same values, in slabs of the right size
    r['weights'] = 1 if rank or (sum(x.size for x in ws) == W.size and same(np.sort(np.concatenate(ws)), np.sort(W))) else 0
    t0, te = f['cut']
    g = [o.get_data(a, t0, te), o.get_data(a), o.get_data(a, t_end=te), o.get_data(a, t_0=t0)]
    r['data'] = same(o.get_data(a, 0, 0), full[:0]) and all(same(x, y) for x, y in zip(g, [full[t0:te], full, full[:te], full[t0:]]))
    with open(os.path.join(sd, 'params_modes.yaml')) as fh: Y = yaml.safe_load(fh)
    r['given'] = all(k in Y and Y[k] == v for k, v in f['params'].items() if not (k == 'n_modes_save' and not pod)) and os.path.realpath(Y['results_folder']) == os.path.realpath(sd)
    y = dict(n=0, nb=0, nf=0, kept=0, ov=0)
    r.update(freq=True, modes=True, dirs=True, near=True, nfreq=0, neigs=0)
    if not pod:
        y = dict(n=int(Y['n_dft']), nb=int(Y['n_blocks']), nf=int(Y['n_freq']), kept=int(Y['n_modes_save']), ov=int(Y['n_overlap']))
        r['nfreq'] = len(o.freq); r['neigs'] = int(z['eigs'].shape[1])
        r['freq'] = same(o.freq, z['freq'])
        r['modes'] = all(same(o.get_modes_at_freq(k), post.get_modes_at_freq(sd, k)) and list(np.shape(o.get_modes_at_freq(k))) == list(f['xshape']) + [f['nv'], q['kept']] for k in (0, len(o.freq) - 1))
        r['dirs'] = bool(os.path.samefile(o.modes_dir, os.path.join(sd, 'modes')) and os.path.realpath(o.savedir_sim).startswith(os.path.realpath(s['sd'])))
        k = f['cut'][0] % len(o.freq)
        v, i = o.find_nearest_freq(freq_req=o.freq[k], freq=o.freq)
        X = [np.arange(n) * 1. for n in f['xshape']]
        cc = [n - 1. for n in f['xshape']]
        xi, idx = o.find_nearest_coords(cc, X)
        r['near'] = bool(v == o.freq[i] and o.freq[i] == o.freq[k] and ints(np.atleast_1d(idx)) == [n - 1 for n in f['xshape']])
    r['y'] = y
    r['file'] = True
    if ev.get('coef'): r['file'] = bool((pod or o.file_coeffs == ev['coef']) and os.path.exists(ev['coef']) and os.path.samefile(os.path.dirname(os.path.dirname(ev['coef'])), sd))
    if ev.get('rec'): r['file'] = bool(r['file'] and (pod or o.file_dynamics == ev['rec']) and os.path.exists(ev['rec']))
    bar()
    return r



def makeobj(q, P, comm):
    if q['cls'] == 'std': from pyspod.spod.standard import Standard as K
    elif q['cls'] == 'str': from pyspod.spod.streaming import Streaming as K
    else: from pyspod.pod.standard import Standard as K
    w = dict(weights_name='w', weights=np.array(q['w'], float)) if q.get('w') else None
    return K(params=P, weights=w, comm=comm)


def files(d):
    return sorted(f for f in os.listdir(d) if os.path.isfile(os.path.join(d, f))) + sorted(os.path.join('modes', f) for f in (os.listdir(os.path.join(d, 'modes')) if os.path.isdir(os.path.join(d, 'modes')) else []))


def fresh(o, q, f, comm, sub, fit, sdir):
    """differences between the results of an object just fitted again and those of a new one"""
    rank = comm.rank if comm is not None else 0
    pod = q['cls'] == 'pod'
    P = dict(q['params'], savedir=os.path.join(sub, 'fresh'))
    n = makeobj(q, P, comm)
    fit(n)
    if comm is not None: comm.Barrier()
    like = [rel9(o.eigs, n.eigs), rel9(o.weights, n.weights)] + ([] if pod else [rel9(o.freq, n.freq)])
    okf = True
    if rank == 0:
        where = lambda x: os.path.join(x.savedir, 'modes%d' % x.n_modes_save) if pod else x.savedir_sim
        a, b = where(o), where(n)
        fa, fb = [[k for k in files(d) if k != 'coeffs.npy' and not k.startswith(('coeffs', 'reconstructed'))] for d in (a, b)]
        okf = fa == fb if not pod else set(fb) <= set(fa)          # a POD directory is shared by fits that store as many modes
        for k in fb:
            if k not in fa: continue
            if k.endswith('.npz'):
                A, B = np.load(os.path.join(a, k)), np.load(os.path.join(b, k))
                okf = okf and sorted(A.files) == sorted(B.files)
                like += [rel9(A[x], B[x]) for x in B.files if x in A.files]
            elif k in ('weights.npy', 'ltm.npy'): like.append(rel9(np.load(os.path.join(a, k)), np.load(os.path.join(b, k))))
            elif k.endswith('.npy'): like.append(rel9(np.abs(np.load(os.path.join(a, k))), np.abs(np.load(os.path.join(b, k)))))
            elif k.endswith('.yaml'):
                A, B = [{x: v for x, v in yaml.safe_load(open(os.path.join(d, k))).items() if x not in ('savedir', 'results_folder')} for d in (a, b)]
                okf = okf and A == B
    if comm is not None: comm.Barrier()
    return like, bool(okf)


def history(s, comm, sd):
    """s: objs (class and parameters), recs (records), events: [object, action, record]"""
    rank = comm.rank if comm is not None else 0
    bar = (lambda: None) if comm is None else comm.Barrier
    s = dict(s, sd=sd)
    objs, cur, evs = [], [], []
    P = {}                       # one dictionary of the user for all objects, changed in between
    for i, q in enumerate(s['objs']):
        if not s['shared']: P = {}
        for k in [k for k in P if k not in q['params']]: del P[k]
        P.update(q['params'], savedir=os.path.join(sd, 'o%d' % i))
        o = makeobj(q, P, comm)
        objs.append(o); cur.append(None); evs.append({})
    out, likes = [], {}
    for e, (i, act, k) in enumerate(s['events']):
        q = s['objs'][i]; o = objs[i]
        try:
            if act == 'fit':
                f = dict(s['recs'][k], params=q['params'])
                sub = os.path.join(sd, 'e%d' % e)
                if rank == 0: os.makedirs(sub, exist_ok=True)
                bar()
                if q['cls'] == 'pod' and f.get('kind', 'array') != 'array': f['kind'] = 'array'
                d, vs = source(f, comm, sub)
                fit = lambda x: x.fit(d, variables=vs) if vs is not None else x.fit(data_list=d)
                again = cur[i] is not None
                fit(o)
                cur[i] = f; evs[i] = {}
                if again: likes[(e, i)] = fresh(o, q, f, comm, sub, fit, sd)
            elif act == 'coef':
                evs[i] = dict(coef=o.compute_coeffs_op(arr(cur[i]), None)[0])
            else: evs[i]['rec'] = o.compute_reconstruction(None, time_idx='all')[0]
            bar()
            # every object is looked at: a step of one must not change what another says
            for j in range(len(objs)):
                if cur[j] is not None:
                    qq = s['objs'][j]
                    pp = dict(cls=qq['cls'], n=int(qq['params'].get('n_dft', 0)), ov=qq['ov'], req=int(qq['params'].get('n_modes_save', 0)), full=bool(qq['params'].get('fullspectrum')))
                    lk = likes.get((e, j), ([], True)); out.append(dict(look(s, objs[j], pp, cur[j], comm, evs[j]), e=e, obj=j, like=lk[0], likefile=lk[1], tol=1000000 if qq['params'].get('dtype') == 'single' else 1000))
        except Exception as x:
            if comm is not None: raise
            import traceback
            out.append(dict(err='%s: %s at %s' % (type(x).__name__, str(x)[:120], traceback.extract_tb(x.__traceback__)[-1][1:3]), e=e, obj=i)); break
    bar()
    if rank == 0: shutil.rmtree(sd, ignore_errors=True)
    return dict(recs=out)
