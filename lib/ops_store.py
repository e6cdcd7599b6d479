"""Replays histories of fits / reads / projections (spec/Store.tla) on the real code and reports what can be seen after each event."""
import os, glob, re, yaml, hashlib, json
import numpy as np
from ops_spod import rawc, sha

XS, NV = [5], 2
SUB = {1: (4, 0), 2: (6, 50)}
NT = {1: 20, 2: 20, 3: 31}


def inputs(seed):
    r = np.random.default_rng(seed)
    b = {d: r.integers(-60, 60, size=(NT[d], *XS, NV)).astype(float) for d in NT}
    d1 = b[1] + .25
    d2 = np.asfortranarray(b[2].astype(np.int64))
    d3 = [b[3][:13].astype(np.float32), b[3][13:].astype(np.float32)]
    d2.flags.writeable = False
    for x in d3: x.flags.writeable = False
    full = {1: d1, 2: d2, 3: np.concatenate(d3).astype(float)}
    full[3].flags.writeable = False
    return {1: d1, 2: d2, 3: d3}, full, {0: None, 1: {'weights_name': 'w', 'weights': r.integers(1, 9, size=(*XS, NV)) / 2.0}}


def params(c, root):
    n, ovl = SUB[c['sub']]
    p = dict(time_step=.5, n_space_dims=len(XS), n_variables=NV, savedir=os.path.join(root, c['dir']))
    if c['nm']: p['n_modes_save'] = c['nm']
    spod = c['cls'] != 'pod'
    if spod: p.update(n_dft=n, overlap=ovl, fullspectrum=c['full'])
    if c['opt'] == 1:
        if c['cls'] != 'str': p['normalize_weights'] = True
        if spod: p['mean_type'] = 'blockwise'
    if c['opt'] == 2:
        p['mean_type'] = 'zero'
        if spod: p['normalize_data'] = True
    if c['mode'] != 'none': p['savefft' if c['mode'] == 'save' else 'reuse_blocks'] = True
    return p


def klass(c):
    if c['cls'] == 'std': from pyspod.spod.standard import Standard as K
    elif c['cls'] == 'str': from pyspod.spod.streaming import Streaming as K
    else: from pyspod.pod.standard import Standard as K
    return K


def locname(d, base):
    m = re.match(r'nfft(\d+)_novlp(\d+)_nblks(\d+)$', base)
    if m:
        n, v, b = map(int, m.groups())
        for s, (nn, o) in SUB.items():
            vv = -(-nn * o // 100)
            for ln, nt in ((1, 20), (2, 31)):
                if (n, v, b) == (nn, vv, (nt - vv) // (nn - vv)): return [d, 'spod', 10 * s + ln]
    m = re.match(r'modes(\d+)$', base)
    if m: return [d, 'pod', int(m.group(1))]
    return [d, 'other', 0]


class Table(dict):
    def put(self, v):
        k = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:16]
        self[k] = v
        return k


def cx(x):
    x = np.array(x)
    return [list(x.shape), np.real(x).reshape(-1).tolist(), np.imag(x).reshape(-1).tolist()]


def modes_of(path, pod, nf):
    import pyspod.utils.postproc as post
    if pod: return [cx(np.load(os.path.join(path, 'modes.npy')))]
    return [cx(post.get_modes_at_freq(path, f)) for f in range(nf)]


def look(path, pod, T):
    """everything a result directory says, by aspect"""
    r = {}
    try:
        z = np.load(os.path.join(path, 'eigs.npz' if pod else 'eigs_freq.npz'))
        e = dict(eigs=cx(z['eigs']))
        nf = 0
        if not pod:
            e.update(freq=z['freq'].tolist()); nf = len(z['freq'])
            if 'eigs_c_l' in z.files: e.update(cl=cx(z['eigs_c_l']), cu=cx(z['eigs_c_u']))
        r['e'] = T.put(e)
        m = modes_of(path, pod, nf)
        nfiles = len(glob.glob(os.path.join(path, 'modes', '*.npy'))) if not pod else 1
        r['m'] = T.put(dict(eigs=e['eigs'], modes=m, n=nfiles))
        r['w'] = T.put(dict(x=cx(np.load(os.path.join(path, 'weights.npy')))))
        r['l'] = T.put(dict(x=cx(np.load(os.path.join(path, 'ltm_modes.npy'))))) if not pod else 'any'
        with open(os.path.join(path, 'params_modes.yaml')) as f: y = yaml.safe_load(f)
        r['p'] = T.put({k: v for k, v in y.items() if isinstance(v, (int, float, str, bool)) and
                        k not in ('savedir', 'results_folder', 'savefft', 'reuse_blocks')})
    except Exception as x:
        return dict(error=type(x).__name__ + ': ' + str(x)[:120])
    return r


def attrs(o, pod):
    r = dict(eigs=cx(o.eigs), nt=int(o.nt), nx=int(o.nx), nv=int(o.nv), nm=int(o.n_modes_save))
    if not pod: r.update(freq=np.asarray(o.freq).tolist(), nb=int(o.n_blocks), nf=int(o.n_freq), k=int(o.n_modes))
    return r


def attr_mismatch(a, b):
    """None or the names that differ between the attributes a and the reference b"""
    bad = [k for k in b if k != 'eigs' and a.get(k) != b[k]]
    if reldiff(a['eigs'], b['eigs']) > 1e-8: bad.append('eigs')
    return bad


def reldiff(a, b):
    if a[0] != b[0]: return 9e9
    x, y = np.array(a[1]) + 1j * np.array(a[2]), np.array(b[1]) + 1j * np.array(b[2])
    if not np.array_equal(np.isfinite(x), np.isfinite(y)): return 9e9
    x, y = np.where(np.isfinite(x), x, 0), np.where(np.isfinite(y), y, 0)
    s = max(np.abs(x).max(initial=0), np.abs(y).max(initial=0))
    return 0 if s == 0 else float(np.abs(x - y).max() / s)


def project(o, c, data, comm):
    pod = c['cls'] == 'pod'
    fc, cd = o.compute_coeffs_op(data, results_dir=None)
    co = np.array(np.load(fc))
    keep = sha(co)
    if pod: fr, _ = o.compute_reconstruction(coeffs_dir=cd, coeffs=co, time_idx='all')
    else: fr, _ = o.compute_reconstruction(coeffs_dir=cd, time_idx='all')
    if comm is not None: comm.Barrier()
    r = np.load(fr)
    if comm is not None: comm.Barrier()
    return dict(rec=cx(r), cshape=list(co.shape)), keep == sha(co)


def ref(s, comm, sd):
    """fresh object, fresh directory: the reference for configuration s.c and data s.d (and projections of s.proj)"""
    fit, full, ws = inputs(s['seed'])
    c = dict(s['c'], mode='none', dir='A')
    T = Table()
    o = klass(c)(params=params(c, sd), weights=ws[c['w']])
    o.fit(data_list=fit[s['d']])
    path = glob.glob(os.path.join(sd, 'A', '*'))
    assert len(path) == 1
    pod = c['cls'] == 'pod'
    r = dict(look=look(path[0], pod, T), attrs=attrs(o, pod), table=T, proj={})
    if pod: r['attrs'] = r['attrs']
    for d in s.get('proj', []): r['proj'][d] = project(o, c, full[d], None)[0]
    import shutil; shutil.rmtree(sd, ignore_errors=True)
    return r


def replay(s, comm, sd):
    rank = comm.rank if comm is not None else 0
    fit, full, ws = inputs(s['seed'])
    hash0 = lambda: [sha(x) if not isinstance(x, list) else [sha(y) for y in x] for x in list(fit.values()) + list(full.values())] + [sha(ws[1]['weights']), sorted(ws[1])]
    h0 = hash0()
    pars, kept, objs, T, out = {}, {}, {}, Table(), []
    other = os.path.join(sd, 'elsewhere'); here = os.getcwd()
    if rank == 0: os.makedirs(other, exist_ok=True)
    bar = (lambda: None) if comm is None else comm.Barrier
    bar()
    for e in s['hist']:
        ob = dict(e=e)
        try:
            if e['a'] == 'fit':
                c = e['c']
                if e['new']:
                    k = json.dumps(c, sort_keys=True)
                    if k not in pars:
                        pars[k] = params(c, sd); kept[k] = dict(pars[k])
                    objs[e['o']] = (klass(c)(params=pars[k], weights=ws[c['w']], comm=comm), c)
                objs[e['o']][0].fit(data_list=fit[e['d']])
            elif e['a'] == 'read':
                o, c = objs[e['o']]
                if c['cls'] == 'pod':
                    bar()
                elif e['all']:
                    import pyspod.utils.postproc as post
                    m = post.get_all_modes(o.savedir_sim)
                    ob['ret'] = T.put(dict(eigs=cx(np.load(os.path.join(o.savedir_sim, 'eigs_freq.npz'))['eigs']), modes=[cx(x) for x in m], n=len(m)))
                    if e['mut']: m[...] = 7
                else:
                    nf = len(glob.glob(os.path.join(o.savedir_sim, 'modes', '*.npy')))
                    ms = [o.get_modes_at_freq(f) for f in range(nf)]
                    ob['ret'] = T.put(dict(eigs=cx(np.load(os.path.join(o.savedir_sim, 'eigs_freq.npz'))['eigs']), modes=[cx(x) for x in ms], n=nf))
                    if e['mut']:
                        for m in ms: m[...] = 7
                    del ms
            elif e['a'] == 'plot':
                import matplotlib.pyplot as plt
                o, c = objs[e['o']]
                if rank == 0:
                    o.plot_eigs(figsize=(2, 2), filename='eigs.png')
                    plt.close('all')
            elif e['a'] == 'chdir':
                os.chdir(other if os.getcwd() == here else here)
            elif e['a'] == 'project':
                o, c = objs[e['o']]
                p, same = project(o, c, full[e['d']], comm)
                ob['proj'] = T.put(p); ob['coeffs_kept'] = bool(same)
        except Exception as x:
            import traceback
            tb = [f for f in traceback.extract_tb(x.__traceback__) if '/pyspod/' in f.filename]
            if not tb: raise
            ob['error'] = '%s: %s at %s:%s' % (type(x).__name__, str(x)[:160], os.path.basename(tb[-1].filename), tb[-1].name)
            out.append(ob); break
        bar()
        if rank == 0:
            ob['locs'] = []
            for d in ('A', 'B'):
                for p in sorted(glob.glob(os.path.join(sd, d, '*'))):
                    ln = locname(d, os.path.basename(p))
                    ob['locs'].append(dict(loc=ln, **look(p, ln[1] == 'pod', T)))
        ob['objs'] = [dict(o=k, a=T.put(attrs(o, c['cls'] == 'pod'))) for k, (o, c) in sorted(objs.items())]
        ob['inputs'] = hash0() == h0
        ob['params'] = all({k: v for k, v in pars[q].items() if k != 'savedir'} == {k: v for k, v in kept[q].items() if k != 'savedir'} for q in pars)
        out.append(ob); bar()
    os.chdir(here)
    bar()
    if rank == 0:
        import shutil; shutil.rmtree(sd, ignore_errors=True)
    return dict(events=out, table=T)


def reads(s, comm, sd):
    """fit once, then read copies of the result directory: files created in another order, other time stamps, other directory"""
    import shutil, tempfile, random
    import pyspod.utils.postproc as post
    from ops_spod import dofit
    o = dofit(s, comm, sd)
    path = o.savedir_sim
    if comm is not None: comm.Barrier()
    if comm is not None and comm.rank: return {}
    rnd = random.Random(s['rseed'])
    disk2 = bool(s['params'].get('savefreq_disk2'))
    nf, nm = int(o.n_freq), int(o.n_modes_save)
    files = {}
    for f in range(nf):
        for m in range(nm):
            fn = os.path.join(path, 'modes', ('freq_idx_f%08d_m%08d.npy' % (f, m)) if disk2 else 'freq_idx_%08d.npy' % f)
            x = np.load(fn)
            files[f, m] = x if disk2 else x[..., m]
    shape = list(files[0, 0].shape)
    ident = {}
    for k, x in files.items(): ident.setdefault(x.tobytes(), []).append([k[0], k[1]])
    def ids(x, nd):
        """which stored modes the columns of x are"""
        x = np.asarray(x)
        if list(x.shape[:-1]) != shape: return 'shape'
        return [ident.get(np.ascontiguousarray(x[..., m]).tobytes(), []) for m in range(x.shape[-1])]
    here = os.getcwd(); out = []
    scratch = []
    try:
        for v in range(s['variants']):
            base = tempfile.mkdtemp(dir='/dev/shm' if v % 2 and os.access('/dev/shm', os.W_OK) else sd); scratch.append(base)
            dst = os.path.join(base, ('res %d', 'res[%d]', 'r*s%d', 'r?s%d')[v % 4] % v)
            os.makedirs(os.path.join(dst, 'modes'))
            # another result directory, with other modes, whose name the first one would match as a pattern
            near = os.path.join(base, 'res%d' % v)
            os.makedirs(os.path.join(near, 'modes'))
            for n in os.listdir(os.path.join(path, 'modes')): np.save(os.path.join(near, 'modes', n), np.load(os.path.join(path, 'modes', n)) + 7)
            names = sorted(os.listdir(os.path.join(path, 'modes'))); rnd.shuffle(names)
            for n in names:
                shutil.copyfile(os.path.join(path, 'modes', n), os.path.join(dst, 'modes', n))
                os.utime(os.path.join(dst, 'modes', n), (rnd.randrange(10 ** 9), rnd.randrange(10 ** 9)))
            for n in os.listdir(path):
                if n != 'modes' and os.path.isfile(os.path.join(path, n)): shutil.copyfile(os.path.join(path, n), os.path.join(dst, n))
            os.chdir(base if v % 3 else here)
            before = {n: sha(np.load(os.path.join(dst, 'modes', n))) for n in names}
            r = dict(one=[], all=[], err='')
            try:
                for f in rnd.sample(range(nf), nf):
                    m = post.get_modes_at_freq(dst, f)
                    r['one'].append([f, ids(m, 1)])
                    if v % 2: m[...] = 3
                    del m
                a = post.get_all_modes(dst)
                r['all'] = [[f, ids(a[f], 1)] for f in range(len(a))]
                r['one'].sort()
            except Exception as x: r['err'] = '%s: %s' % (type(x).__name__, str(x)[:150])
            r['kept'] = before == {n: sha(np.load(os.path.join(dst, 'modes', n))) for n in sorted(os.listdir(os.path.join(dst, 'modes')))}
            r['cwd'] = os.getcwd() == (base if v % 3 else here)
            out.append(r)
    finally:
        os.chdir(here)
        for b in scratch: shutil.rmtree(b, ignore_errors=True)
        shutil.rmtree(sd, ignore_errors=True)
    return dict(nf=nf, nm=nm, reads=out)
