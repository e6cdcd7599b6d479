import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C16')
rng = np.random.default_rng(SEED + 16)
models = threading.Thread(target=lambda: c.model('Pvar', tpick(None, 'Pvar_t.cfg'), workers=4)); models.start()
scens, ranks, keys = [], [], {}
for n_r in tpick((1, 2, 3, 4, 7), (1, 2, 3, 4, 5, 6, 7, 8)):
    for k in range(tpick(24, 140)):
        cp = bool(rng.random() < .35)
        style = int(rng.integers(0, 4))
        cnt = [int(rng.integers(0, [7, 3, 2, 12][style])) for _ in range(n_r)]
        if style == 2 and rng.random() < .5: cnt = [0] * n_r; cnt[int(rng.integers(0, n_r))] = int(rng.integers(0, 9))
        if k == 23: cnt = [int(rng.integers(0, 160 // n_r + 1)) for _ in range(n_r)]        # long ones
        pt = [[[int(rng.integers(-9, 10)), int(rng.integers(-9, 10)) if cp else 0] for _ in range(m)] for m in cnt]
        s = dict(mod='ops_par', op='stat', parts=[[x for z in p for x in z] if cp else [z[0] for z in p] for p in pt], pt=pt, cplx=cp, gain=float(rng.choice([1.0, 1.0, 1e-3, 1e4])),
                 twod=bool(rng.random() < .4), shift=float(rng.choice([0, 0, 2.0 ** 10, -2.0 ** 20])))
        scens.append(s); ranks.append(n_r)
nst = len(scens)
for k in range(tpick(48, 240)):
    nv = int(rng.choice([1, 2, 2, 3]))
    xs = [[3], [4], [2, 3], [3, 1], [5], [3, 2, 1]][int(rng.integers(0, 6))]
    cl = str(rng.choice(['std', 'std', 'pod'])); cp = cl == 'std' and bool(rng.random() < .3)
    s = gen(rng, cplx=cp, nt=int(rng.integers(10, 15)), n=4, xshape=xs, nv=nv, lo=-3, hi=3, normalize_weights=True)
    P = int(np.prod(xs)) * nv
    s['cls'] = cl
    s['op'] = 'wfit'
    off = rng.integers(-2, 3, size=nv)      # variables of different means
    s['data'] = [[([x[0] + int(off[p % nv]), x[1]] if cp else x + int(off[p % nv])) for p, x in enumerate(row)] for row in s['data']]
    if rng.random() < .6: s['weights'] = zeroed(rng, rng.integers(1, 4, size=P).tolist())
    if rng.random() < .3: s['weights'] = s.get('weights') or [1] * P; s['wdtype'] = str(rng.choice(['float64', 'int64', 'float32']))
    nt = len(s['data'])
    if rng.random() < .4: j = int(rng.integers(1, nt)); s['splits'] = [j, nt - j]
    if rng.random() < .3: s['vaxis'] = True
    if rng.random() < .2: s['params']['dtype'] = 'single'
    n_r = int(rng.choice([0, 0, 1, 2, 3, 4, 7]))
    if s['cls'] == 'std' and n_r and rng.random() < .4 and not cp:
        s['kind'] = 'nc'; s.setdefault('splits', [nt]); s['params'].update(savefreq_disk=False, savefreq_disk2=True)
    scens.append(s); ranks.append(n_r)
# recorded findings: these three configurations
s = gen(np.random.default_rng(5), nt=12, n=4, xshape=[3], nv=1, normalize_weights=True); s.update(cls='str', op='wfit'); keys[len(scens)] = 'streaming-normalize_weights'
scens.append(s); ranks.append(0)
s = gen(np.random.default_rng(5), nt=12, n=4, xshape=[1], nv=2, normalize_weights=True); s.update(cls='std', op='wfit'); keys[len(scens)] = 'normalize_weights-variables-distributed'
scens.append(s); ranks.append(2)
s = gen(np.random.default_rng(5), nt=12, n=4, xshape=[2, 3], nv=1, normalize_weights=True); s.update(cls='std', op='wfit', weights=[1] * 6, wform='nov'); keys[len(scens)] = 'normalize_weights-no-variables-axis'
scens.append(s); ranks.append(0)
outs = execute(c, scens, ranks)
for i, k in keys.items():
    p = problem(outs[i])
    if p: c.violation(k, '%s (%s ranks): %s' % (brief(scens[i]), ranks[i], p), scens[i])
recs = []
for i in need(c, [s for i, s in enumerate(scens) if i not in keys or not problem(outs[i])], [outs[i] for i in range(len(scens)) if i not in keys or not problem(outs[i])],
              [ranks[i] for i in range(len(scens)) if i not in keys or not problem(outs[i])]):
    idx = [j for j in range(len(scens)) if j not in keys or not problem(outs[j])][i]
    s, o = scens[idx], outs[idx]
    if idx < nst:
        g = s['gain']
        recs.append(dict(id=idx, kind='stat', parts=s['pt'], got=[[x['n'], fx(x['mr'] / g - s['shift'], 1000), fx(x['mi'] / g, 1000), fx(x['v'] / g / g, 5000000)] for x in o], same=all(x['same'] for x in o)))
    else:
        P = int(np.prod(s['xshape'])) * s['nv']
        d = s['data'] if s.get('cplx') else [[[x, 0] for x in row] for row in s['data']]
        recs.append(dict(id=idx, kind='weights', d=d, nv=s['nv'], w=s.get('weights') or [1] * P, got=[fx(x, 10000) for x in np.array(o[0]['w'], float).reshape(-1)], tol=0))
    c.sample(brief(s))
c.judge('T_Pvar', recs, lambda r: '%s (%s ranks)' % (brief(scens[r['id']]), ranks[r['id']] or 'serial'), key=lambda r, cl: keys.get(r['id']), chunks=4)
models.join()
c.finish()
