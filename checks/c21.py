import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C21')
models = threading.Thread(target=lambda: c.model('Nearest', tpick(None, 'Nearest_t.cfg'), workers=3, timeout=800)); models.start()
rng = np.random.default_rng(SEED + 2100)
scens = []
def axis(n):
    k = rng.random()
    a = rng.integers(-40, 41, size=n)
    if k < .4: a = np.sort(a)
    elif k < .5: a = np.sort(a)[::-1]
    elif k < .6: a = np.concatenate([np.arange(0, (n + 1) // 2), np.arange(-(n // 2), 0)]) * 4        # signed frequency axis
    return [int(x) for x in a]
for k in range(tpick(200, 2500)):
    nd = int(rng.choice([1, 2, 2, 3]))
    axes = [axis(int(rng.integers(1, 6 if k % 8 or nd > 1 else 80))) for _ in range(nd)]
    s = dict(mod='ops_misc', op='near', axes=axes, freq=axis(int(rng.integers(1, 12 if k % 7 else 150))), req=[int(x) for x in rng.integers(-60, 61, size=4)], coords=[[int(x) for x in rng.integers(-50, 51, size=nd)] for _ in range(4)])
    s['coords'].append([a[int(rng.integers(0, len(a)))] for a in axes]); s['req'].append(s['freq'][-1])
    for f in ('aslist', 'astuple', 'asarr'):
        if rng.random() < .4: s[f] = True
    if k % 10 == 0 and int(np.prod([len(a) for a in axes])) > 1: s['cls'] = float(rng.choice([1, .5])); s['full'] = bool(rng.random() < .5)
    if not s.get('cls') and rng.random() < .25:                   # axes and requests of small or unsigned integers
        s['ity'] = str(rng.choice(['uint8', 'int8', 'uint16', 'int64'])); s['asnum'] = bool(rng.random() < .6); s.pop('aslist', None)
        f = (lambda x: 3 * abs(x)) if s['ity'][0] == 'u' else (lambda x: 2 * x)
        for q in ('freq', 'req'): s[q] = [f(x) for x in s[q]]
        for q in ('axes', 'coords'): s[q] = [[f(x) for x in a] for a in s[q]]
    scens.append(s)
ranks = [0] * len(scens)
outs = execute(c, scens, ranks)
recs = []
for i in need(c, scens, outs, ranks):
    o = outs[i][0]
    n0 = len(scens[i]['req']) if scens[i].get('cls') else 0
    recs.append(dict(o, id=i, tol=[1] * n0 + [0] * (len(o['f']) - n0))); c.sample(json.dumps(scens[i])[:300])
c.judge('T_Nearest', recs, lambda r: json.dumps(scens[r['id']])[:600], chunks=4)
models.join()
c.finish()
