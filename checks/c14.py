import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
from cmpfit import compare, cplx
c = Check('C14')
rng = np.random.default_rng(SEED + 1400)
models = threading.Thread(target=lambda: c.model('Stream', tpick(None, 'Stream_t.cfg'), workers=3, timeout=800)); models.start()
P = lambda p: rng.random() < p
def parts(nt, k):
    q = sorted(rng.choice(np.arange(1, nt), size=k - 1, replace=False).tolist()) if k > 1 else []
    q = [0] + q + [nt]
    return [int(b - a) for a, b in zip(q, q[1:])]
def windows(n, dn, nt):
    """ends of the completed windows (only used to choose interesting lengths; the oracle is StreamRef!Windows)"""
    t = [-j * dn for j in range(-(-n // dn))]; out = []
    for ti in range(nt):
        for j in range(len(t)):
            if t[j] == n - 1: out.append(ti); t[j] = min(t) - dn
            else: t[j] += 1
    return out
shapes = [[1], [2], [3], [5], [2, 2], [2, 3], [4, 1], [1, 3], [7], [2, 1, 2]]
scens, ranks, plan = [], [], []
def add(s, n_r): scens.append(s); ranks.append(n_r); return len(scens) - 1
for k in range(tpick(44, 420)):
    n = int(rng.choice([4, 4, 5, 6, 7, 8, 10])); ovl = int(rng.choice([0, 0, 25, 50, 50, 60, 75, 33, 80]))
    dn = n - -(-n * ovl // 100)
    if dn < 1: ovl = 50; dn = n - -(-n // 2)
    nb = int(rng.integers(2, 6))
    nt = n + (nb - 1) * dn + int(rng.integers(0, dn + 2))
    xs = shapes[int(rng.integers(0, len(shapes)))]; nv = int(rng.choice([1, 1, 2, 3]))
    while int(np.prod(xs)) * nv > 10: nv = 1; xs = [3]
    kw = {}
    if P(.2): kw['fullspectrum'] = True
    if P(.15): kw['dtype'] = 'single'
    cp = bool(P(.3))
    kind = ['full', 'step', 'full', 'cmp'][k % 4]
    gain = 2.0 ** int(rng.choice([-24, -12, 10] if kw.get("dtype") else [-70, -42, -20, 12, 25])) if P(.3) else 1.0
    big = kind == 'cmp'
    if big and P(.5): xs = [[5], [4, 3], [3, 3, 2], [11], [6, 2]][int(rng.integers(0, 5))]
    s = gen(rng, cplx=cp, nt=nt, n=n, ovl=ovl, xshape=xs, nv=nv, **(dict(lo=-60, hi=60) if big else {}), **kw)
    N = int(np.prod(xs)) * nv
    s.update(op='stream', cls='str', gain=gain)
    if P(.5): s['weights'] = zeroed(rng, rng.integers(1, 5, size=N).tolist())
    reweigh(rng, s)
    if P(.15): s['layout'] = 'F'
    if P(.25): s['vaxis'] = True
    W = windows(n, dn, nt)
    def deliver(s, n_r):
        """another way of handing over the same record"""
        s = dict(s, params=dict(s['params']))
        m = int(rng.choice([1, 2, 2, 3, 4]))
        if nt > m > 1: s['splits'] = parts(nt, m)
        elif P(.3): s['aslist'] = True
        if P(.2) and not cp: s['xr'] = True
        return s
    n_r = int(rng.choice([0, 0, 0, 1, 2, 3, 4]))
    if kind == 'full':
        B = len(W)
        if P(.3): s['params']['n_modes_save'] = int(rng.integers(max(B, 1), B + 3))
        plan.append(('full', add(deliver(s, n_r), n_r)))
    elif kind == 'step':
        if len(W) < 2: continue
        cut = W[-1]                                 # snapshots of the prefix: all before the last update
        nb1 = (cut - (n - dn)) // dn
        if nb1 < 2: continue
        m = int(rng.integers(1, nb1 + 1)); s['params']['n_modes_save'] = m
        pre = dict(s, data=s['data'][:cut], params=dict(s['params']))
        if P(.5): pre['splits'] = parts(cut, 2)
        plan.append(('step', add(deliver(s, n_r), n_r), add(pre, int(rng.choice([0, 0, 2])))))
    else:
        if P(.7): s['params']['n_modes_save'] = int(rng.integers(1, 5))
        s['gain'] = float(rng.choice([1.0, .01, 30.0] + ([] if kw.get('dtype') else [1e-11, 1e7]))); s['shift'] = float(rng.choice([0.0, 0.0, 5.0])) if s['gain'] > 1e-6 else 0.0
        a = add(s, 0)
        plan.append(('cmp', add(deliver(s, n_r), n_r or int(rng.choice([0, 2, 3, 5]))), a))
outs = execute(c, scens, ranks)
good = set(need(c, scens, outs, ranks))
recs = []
def rec(i, unit=False):
    s, o = scens[i], outs[i][0]
    g = 1.0 if unit else s['gain']
    wg = s.get('wgain', 1.0) ** .5
    E = cplx(o['eigs'], o['eigs_shape']) / g / wg
    single = s['params'].get('dtype') == 'single'
    R = np.real(E) ** 2 * np.sign(np.real(E))
    if unit and np.isfinite(R).all() and np.abs(R).max() > 0: R = R / np.abs(R).max()
    m = np.abs(R).max() if R.size else 0
    q = np.where(np.abs(R) <= (1e-4 if single else 1e-9) * m, 0.0, R)
    rank = [[sorted(set(x[x >= 0])).index(y) if y >= 0 else -1 for y in x] for x in q]
    N = int(np.prod(s['xshape'])) * s['nv']
    d = s['data'] if s.get('cplx') else [[[x, 0] for x in row] for row in s['data']]
    ms = []
    for f in range(len(o['modes'])):
        a = cplx(o['modes'][f], o['mshapes'][f]) * wg
        ok = list(a.shape[:-1]) == list(s['xshape']) + [s['nv']]
        a = a.reshape(N, a.shape[-1]) if ok else np.zeros((0, 0))
        ms.append([fxc(a[:, k], 1000) for k in range(a.shape[1])])
    nbl = o['nb']
    nm = int(min(s['params'].get('n_modes_save', 10**6), nbl))
    lt = cplx(o['ltm'], o['ltmshape']) / g
    lt = fxc(lt.reshape(-1), 1000) if not unit and list(lt.shape) == list(s['xshape']) + [s['nv']] else []
    return dict(id=i, mean=not unit, ltm=lt, n=int(s['params']['n_dft']), ovl=s['params'].get('overlap', 0), nt=len(d), P=N, d=d, w=[1000 * x for x in s['weights']] if s.get('weights') is not None else [1000] * N,
                isreal=not s.get('cplx') or all(x[1] == 0 for row in d for x in row), full=bool(s['params'].get('fullspectrum', False)), nm=nm, nf=o['nf'], tol=2 if single else 1,
                eigs=fxa(R, 10000), eigreal=bool((np.abs(E.imag) <= 1e-9 * max(np.abs(E).max(), 1e-300)).all()), rank=rank,
                big=[[bool(x > (1e-3 if single else 1e-6) * m and x > 1e-3 * row[0] and x > 1e-8) for x in row] for row in R], modes=ms, sig=fxa(np.real(E), 1000), reqs=[x['reqs'] for x in outs[i]])
for p in plan:
    if not all(i in good for i in p[1:]): continue
    i = p[1]
    if p[0] == 'cmp':
        single = scens[i]['params'].get('dtype') == 'single'
        r = compare(outs[p[2]][0], outs[i][0], 1e-5 if single else 1e-9, outs[i], streaming=True)
        r.update(id=i, kind='cmp', tol=2, thr=8000 if single else 300, cm=10000 if scens[i]['shift'] == 0 or single else 10)
        recs.append(r)
        r = rec(i, True); r['kind'] = 'stop'; recs.append(r)
    else:
        r = rec(i); r['kind'] = p[0]
        if p[0] == 'step':
            q = rec(p[2])
            r['psig'] = q['sig']
            # modes of null singular values carry nothing
            r['pmodes'] = [[[[0, 0]] * q['P'] if not q['big'][f][k] else q['modes'][f][k] for k in range(len(q['modes'][f]))] for f in range(len(q['modes']))]
            if any(len(x) != r['nm'] for x in r['pmodes']) or not r['pmodes']:
                c.violation(None, '%s: the prefix stores %s modes, %d requested' % (brief(scens[p[2]]), [len(x) for x in r['pmodes']], r['nm']), scens[p[2]]); continue
        recs.append(r)
    c.sample('%s: %s (%s ranks)' % (p[0], brief(scens[i]), ranks[i] or 'serial'))
c.judge('T_Stream', recs, lambda r: '%s %s (%s ranks)' % (r['kind'], brief(scens[r['id']]), ranks[r['id']] or 'serial'), chunks=6)
models.join()
c.finish(dict(kinds={k: sum(r['kind'] == k for r in recs) for k in ('full', 'step', 'cmp', 'stop')}))
