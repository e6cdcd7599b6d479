import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C17')
models = threading.Thread(target=lambda: c.model('Scale', tpick(None, 'Scale_t.cfg'), workers=3, timeout=800)); models.start()
rng = np.random.default_rng(SEED + 1700)
scens = []
for k in range(tpick(300, 4000)):
    R, T, T2 = int(rng.integers(1, 6)), int(rng.integers(1, 8)), int(rng.integers(1, 8))
    if k % 25 == 0: R, T, T2 = int(rng.integers(1, 20)), int(rng.integers(20, 120)), int(rng.integers(1, 60))        # long series
    cplx = bool(rng.random() < .6)
    typ = 'complex' if cplx else 'real'
    if cplx and rng.random() < .1: typ = 'real_of_complex'
    def mat(T, big=9):
        a = rng.integers(-big, big + 1, size=(R, T, 2) if cplx else (R, T))
        if rng.random() < .3: a[int(rng.integers(0, R))] = 0
        if cplx and rng.random() < .3: a[int(rng.integers(0, R)), :, 1] = 0
        if cplx and rng.random() < .2: a[int(rng.integers(0, R)), :, 0] = 0
        if rng.random() < .2: a = -np.abs(a)
        if rng.random() < .2: a = a * (np.arange(R).reshape((R,) + (1,) * (a.ndim - 1)) ** 2)
        if rng.random() < .1: a = a * 0
        if cplx and rng.random() < .2: a[..., 1] *= 11
        if cplx and rng.random() < .2: a[..., 0] *= 11
        return a.tolist()
    if typ == 'real_of_complex':                     # complex storage, real values
        typ = 'real'; d, e = np.array(mat(T)), np.array(mat(T2)); d[..., 1] = 0; e[..., 1] = 0; d, e = d.tolist(), e.tolist()
    else: d, e = mat(T), mat(T2, 14)
    s = dict(mod='ops_misc', op='scale', data=d, data2=e, cplx=cplx, dtype_name=str(rng.choice([typ, typ, typ.capitalize(), typ.upper()])), seed=int(rng.integers(0, 9999)))
    nm = rng.choice(['localmax', 'globalmax', 'none', 'LocalMax', 'GLOBALMAX', 'x', None])
    if nm is not None and nm != 'x': s['norm'] = str(nm)
    elif nm == 'x': s['norm'] = 'anything'
    if rng.random() < .3: s['gain'] = float(rng.choice([1e-3, 1e3, .25, 1e-8]))
    if rng.random() < .2: s['single'] = True
    if cplx and rng.random() < .1 and typ == 'complex':          # real matrix, complex networks
        for q in ('data', 'data2'): s[q] = [[[z[0], 0] for z in row] for row in s[q]]
        s['plain'] = True
    if (not cplx or s.get('plain')) and 'gain' not in s and not s.get('single') and rng.random() < .4: s['plain'] = True; s['ints'] = str(rng.choice(['int64', 'int32', 'int16']))
    scens.append(s)
ranks = [0] * len(scens)
outs = execute(c, scens, ranks)
recs = []
for i in need(c, scens, outs, ranks):
    s = scens[i]
    recs.append(dict(outs[i][0], id=i, ismax=s.get('norm', 'localmax').lower() in ('localmax', 'globalmax'), dtype=s['dtype_name'].lower())); c.sample(json.dumps(s)[:300])
c.judge('T_Scale', recs, lambda r: json.dumps(scens[r['id']])[:600], chunks=4)
models.join()
c.finish()
