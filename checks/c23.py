import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C23')
models = threading.Thread(target=lambda: c.model('Geo', tpick(None, 'Geo_t.cfg'), workers=3, timeout=800)); models.start()
rng = np.random.default_rng(SEED + 2300)
scens, ranks = [], []
for k in range(tpick(150, 1500)):
    d = int(rng.integers(2, 4)); n1 = int(rng.integers(3, 15)); n2 = int(rng.integers(1, 9))
    if k % 15 == 5: n1, n2, d = int(rng.choice([46, 61, 91])), int(rng.integers(2, 5)), 2 + k // 15 % 2        # fine grids
    s = dict(mod='ops_misc', op='geo', dims=d, n1=n1, n2=n2, n3=int(rng.integers(1, 5)) if d == 3 else 1, nv=int(rng.integers(1, 4)), R=[None, 1, 2, 3, 6][int(rng.integers(0, 5))], seed=k)
    for f in ('fl', 'named', 'vaxis'):
        if rng.random() < .4: s[f] = True
    n = 0
    if k % 4 == 0:
        s['cls'] = str(rng.choice(['std', 'std', 'pod', 'str'])); n = int(rng.choice([0, 2, 3]))
        if n2 == 1: s['n2'] = 2
    scens.append(s); ranks.append(n)
def first_zero(r):
    return not np.any(np.array(r['w']).reshape(r['n1'], r['n2'], -1)[:, 0])       # the finding: exactly zero along the first longitude
outs = execute(c, scens, ranks)
recs = []
for i in need(c, scens, outs, ranks):
    recs.append(dict(outs[i][0], id=i)); c.sample(json.dumps(scens[i]))
c.judge('T_Geo', recs, lambda r: json.dumps(scens[r['id']]), key=lambda r, cl: 'geo-first-longitude' if cl == ['weight of the first longitude is the area of the cell'] and first_zero(r) else None, chunks=4)
models.join()
c.finish()
