import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C25')
models = threading.Thread(target=lambda: c.model('Conv', tpick(None, 'Conv_t.cfg'), workers=3, timeout=800)); models.start()
rng = np.random.default_rng(SEED + 2500)
scens, ranks = [], []
shapes = [[4], [3, 2], [2, 3], [5], [2, 2, 2], [6], [1], [3], [2]]
P = lambda p: rng.random() < p
for k in range(tpick(70, 320)):
    xs = shapes[int(rng.integers(0, len(shapes)))]; nv = int(rng.choice([1, 1, 2, 3]))
    if int(np.prod(xs)) * nv > 9: nv = 1
    big = k % 4 == 3           # windows beyond the tables: the relation with the fit only
    n = int(rng.choice([12, 16, 15, 11, 24])) if big else int(rng.choice([4, 4, 5, 6, 7, 8, 9, 10]))
    ovl = int(rng.choice([0, 0, 50, 25, 60])); stride = n - -(-n * ovl // 100)
    nb = int(rng.integers(2, 5)); nt = n + (nb - 1) * stride + int(rng.integers(0, stride))
    if big or P(.4): nt = n + (nb - 1) * stride + int(rng.integers(1, stride)) if stride > 1 else nt
    cp = P(.3); kw = dict(mean_type=str(rng.choice(['longtime', 'longtime', 'longtime', 'zero', 'blockwise'])))
    if P(.2): kw['fullspectrum'] = True
    if P(.1) and not big: kw['normalize_data'] = True
    if P(.1): kw['dtype'] = 'single'
    if P(.15) and max(xs) >= nv: kw['normalize_weights'] = True
    kw['n_modes_save'] = int(rng.integers(1, 4))
    s = gen(rng, cplx=cp, nt=nt, n=n, ovl=ovl, xshape=xs, nv=nv, lo=-9, hi=9, **kw)
    s['params']['time_step'] = float(rng.choice([1, .5, 2.0]))
    s.update(mod='ops_conv', op='convolve', nt0=nt)
    if P(.6): s['weights'] = zeroed(rng, rng.integers(1, 6, size=int(np.prod(xs)) * nv).tolist())
    if P(.2): s['vaxis'] = True
    if P(.2): s['xr'] = True
    if P(.1): s['single'] = True
    reweigh(rng, s)
    if P(.25) and not (kw.get('normalize_data') or kw.get('normalize_weights')): s['gain'] = 2.0 ** int(rng.choice([-12, 10] if kw.get('dtype') or s.get('single') else [-40, -20, 12, 27]))
    if P(.3) and not big:
        nt2 = int(rng.integers(max(2, n - 2), 3 * n)) if P(.85) else int(rng.integers(2, n + 1)); c2 = P(.3)
        s['data2'] = rng.integers(-9, 10, size=(nt2, int(np.prod(xs)) * nv) + ((2,) if c2 else ())).tolist(); s['cplx2'] = c2
    if k % 16 == 5: s['data2'] = rng.integers(-9, 10, size=(int(rng.integers(54, 75)), int(np.prod(xs)) * nv)).tolist(); s['cplx2'] = False        # long
    nfreq = n if (cp or kw.get('fullspectrum')) else n // 2 + 1
    dt = s['params']['time_step']; w = rng.random()
    if w < .3: s['band'] = {}
    elif w < .75:
        q = rng.choice(nfreq, size=int(rng.integers(1, min(nfreq, 3) + 1)), replace=False).tolist()
        s['band'] = dict(freq_idx=[int(x) for x in (sorted(q) if P(.6) else q)])
    else:
        T = sorted(rng.uniform(1.6 * dt, 1.5 * n * dt, size=2).tolist()); s['band'] = dict(T_lb=T[0], T_ub=T[1])
    if P(.1): s['opts'] = dict(tol=1e-6, svd=True, modes_idx=[0])
    n_r = int(rng.choice([0, 2, 3, 4, 5]))
    s['sizes'] = [0] if n_r == 0 else sorted(set([0] + [int(x) for x in rng.integers(1, n_r + 1, size=1)] + [n_r]))
    s['fitranks'] = int(rng.integers(0, n_r + 1)) if n_r else 0
    scens.append(s); ranks.append(n_r)
outs = execute(c, scens, ranks, split_jobs=tpick(1, 2))
recs = []
for i in need(c, scens, outs, ranks):
    recs.append(dict(outs[i][0], id=i))
    c.sample(brief({k: v for k, v in scens[i].items() if k != 'data2'}))
c.judge('T_Conv', recs, lambda r: '%s (%s ranks)' % (brief({k: v for k, v in scens[r['id']].items() if k != 'data2'}), ranks[r['id']] or 'serial'), chunks=6)
models.join()
c.finish(dict(with_tables=sum(r['tab'] for r in recs), linked_to_the_fit=sum(r['fit'] for r in recs)))
