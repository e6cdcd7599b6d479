import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C03')
rng = np.random.default_rng(SEED + 3)
models = threading.Thread(target=lambda: c.model('NpyIO', tpick(None, 'NpyIO_t.cfg'), workers=4)); models.start()
def cut(n, P):
    """P slab sizes adding up to n: balanced, ragged or with empty ranks"""
    k = int(rng.integers(0, 4))
    if k == 0: return [n // P + (1 if n % P > i else 0) for i in range(P)]
    c_ = np.sort(rng.integers(0, n + 1, size=P - 1)).tolist()
    if k == 1 and P > 1: c_ = [int(rng.choice([0, n])) for _ in c_]; c_.sort()
    c_ = [0] + c_ + [n]
    return [int(b - a) for a, b in zip(c_, c_[1:])]
scens, ranks = [], []
for n_r in tpick((0, 1, 2, 3, 4, 6), (0, 1, 2, 3, 4, 5, 6, 7, 8)):
    for k in range(tpick(48, 260)):
        P = max(n_r, 1)
        nd = int(rng.integers(1, 5))
        shape = [int(rng.choice([1, 2, 3, 4, 5, 7])) for _ in range(nd)]
        while int(np.prod(shape)) > 120: shape[int(np.argmax(shape))] -= 1
        if rng.random() < .08: shape[int(rng.integers(0, nd))] = 0
        dt = str(rng.choice(['float64', 'float32', 'int64', 'int32', 'int16', 'complex128', 'complex64', 'bool', 'uint8']))
        s = dict(mod='ops_par', op='npy', shape=shape, dtype=dt, laxis=int(rng.integers(0, nd)))
        if rng.random() < .7:
            s['axis'] = int(rng.integers(0, nd)); s['counts'] = cut(shape[s['axis']], P)
            s['lay'] = [str(rng.choice(['C', 'F', 'neg', 'step', 'T'])) for _ in range(P)]
        else: s['forder'] = bool(rng.random() < .5)
        if rng.random() < .15 and dt not in ('bool', 'uint8'): s['swap'] = True
        if rng.random() < .4: s['stale'] = int(rng.integers(1, 1500))
        if n_r and rng.random() < .5: s['lcounts'] = cut(shape[s['laxis']], P)
        scens.append(s); ranks.append(n_r)
outs = execute(c, scens, ranks)
recs = []
for i in need(c, scens, outs, ranks):
    s, o = scens[i], outs[i]
    recs.append(dict(id=i, shape=s['shape'], laxis=s['laxis'], lcounts=s.get('lcounts') or ([s['shape'][s['laxis']]] if not ranks[i] else []), bool=s['dtype'] == 'bool',
                     file=o[0]['file'], extra=o[0]['extra'], same=all(x.get('same', True) for x in o), parts=[x['part'] for x in o]))
    c.sample(brief(s))
c.judge('T_Npy', recs, lambda r: '%s (%s ranks)' % (brief(scens[r['id']]), ranks[r['id']] or 'serial'), chunks=4)
models.join()
c.finish()
