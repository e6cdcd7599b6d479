import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C15')
def design():
    c.model('Pod', tpick(None, 'Pod_t.cfg'), workers=3, timeout=800); c.model('Wrap', tpick(None, 'Wrap_t.cfg'), workers=3, timeout=800)
models = threading.Thread(target=design); models.start()
rng = np.random.default_rng(SEED + 1500)
scens, ranks, nlong = [], [], 0
shapes = [[12], [4, 3], [3, 4], [8], [2, 3, 2], [9], [5, 2], [2], [6], [3], [1], [7]]
for k in range(tpick(110, 600)):
    xs = shapes[int(rng.integers(0, len(shapes)))]
    nv = int(rng.choice([1, 1, 1, 2, 3])); nt = int(rng.integers(2, 13))
    if int(np.prod(xs)) * nv > 24: nv = 2
    if k % 18 == 5: xs, nv, nt = [int(rng.integers(2, 5)) if k % 36 == 5 else 17], 1, int(rng.integers(17, 25))        # many modes
    N = int(np.prod(xs)) * nv
    mode = rng.random()
    if mode < .75: d = rng.integers(-9, 10, size=(nt, N))
    elif mode < .85:                                             # few degrees of freedom: null eigenvalues
        d = np.outer(rng.integers(-3, 4, size=nt), rng.integers(-3, 4, size=N)) + rng.integers(-5, 6, size=N)
    elif mode < .92: d = np.tile(rng.integers(-9, 10, size=N), (nt, 1))      # constant in time
    else: d = rng.integers(-9, 10, size=(nt, N)); d[:, : max(1, N // 2)] = 0
    p = {}
    s = dict(mod='ops_pod', op='pod', data=d.tolist(), xshape=xs, nv=nv, params=p)
    p['time_step'] = 1.0
    p['mean_type'] = str(rng.choice(['longtime', 'longtime', 'longtime', 'zero']))
    if rng.random() < .7 and k % 18 != 5: p['n_modes_save'] = int(rng.integers(1, nt + 3))
    if rng.random() < .12: p['dtype'] = 'single'
    if rng.random() < .6: s['weights'] = zeroed(rng, rng.integers(1, 6, size=N).tolist()); s['wscale'] = int(rng.choice([1, 1, 10]))
    if rng.random() < .2: s['vaxis'] = True
    if 'dtype' not in p and N > 1 and rng.random() < .12: s['cols'] = [2.0 ** -11 if rng.random() < .6 else 1.0 for _ in range(N)]; s['cols'][0] = 1.0
    elif rng.random() < .3: s['shift'] = float(rng.choice([3, -7, 50]))
    if rng.random() < .2: s['gain'] = float(rng.choice([1e-3, 1e3, .1] + ([] if 'dtype' in p else [1e-11, 1e8])))
    if rng.random() < .2: s['xr'] = True
    if rng.random() < .1: s['single'] = True
    reweigh(rng, s)
    if rng.random() < .2: s['gaincoef'] = 2.0
    if rng.random() < .2: s['named'] = True
    if rng.random() < .3: s['viaclass'] = True
    if rng.random() < .4 and nt > 1:
        q = sorted(set(rng.integers(1, nt, size=int(rng.integers(1, 4))).tolist())); q = [0] + q + [nt]
        s['splits'] = [b - a for a, b in zip(q, q[1:])]
    if rng.random() < .2: s['layout'] = 'F'
    if not any(q in s for q in ('gain', 'shift', 'cols')):
        if s.get('splits') and rng.random() < .5: s = mixed(rng, s)
        elif rng.random() < .3: s['dtypein'] = str(rng.choice(['int64', 'int32', 'int16', 'float32']))
    if rng.random() < .3:
        nt2 = int(rng.integers(1, 24)); s['data2'] = rng.integers(-9, 10, size=(nt2, N)).tolist()
    long = N <= 12 and rng.random() < .12
    if long: nt2 = int(rng.integers(101, 230)); s['data2'] = rng.integers(-9, 10, size=(nt2, N)).tolist()
    ntp = len(s.get('data2') or s['data'])
    s['times'] = [None, 'all', 'all', 'half', 'quarter', 'tenth', 'list', 'list'][int(rng.integers(0, 8))]
    if s['times'] == 'list':
        s['times'] = [int(x) for x in rng.integers(0, ntp, size=int(rng.integers(1, 6)))]
        if rng.random() < .2: s['times'][0] = -1
    if s.get('viaclass') and isinstance(s['times'], list): s['times'] = [min(t, nt - 1) for t in s['times']]
    if long: s['times'] = ['hundredth', 'tenth', 'quarter'][nlong % 3]; nlong += 1
    n_r = int(rng.choice([0, 2, 3, 4, 4, 5]))
    s['sizes'] = [0] if n_r == 0 else sorted(set([0] + [int(x) for x in rng.integers(1, n_r + 1, size=2)] + [n_r]))
    s['fitranks'] = int(rng.integers(0, n_r + 1)) if n_r else 0
    if s.get('viaclass') and n_r: s['fitranks'] = n_r
    if rng.random() < .1 and max(xs) >= nv and mode < .75 and nt > 3 and N > 2 and 'cols' not in s: p['normalize_weights'] = True
    scens.append(s); ranks.append(n_r)
outs = execute(c, scens, ranks, split_jobs=tpick(1, 2))
recs = []
for i in need(c, scens, outs, ranks):
    for r in outs[i][0]['recs']: recs.append(dict(r, id=len(recs), sc=i))
    c.sample(brief({k: v for k, v in scens[i].items() if k != 'data2'}))
c.judge('T_Pod', recs, lambda r: '%s (%s ranks, projected by %s)' % (brief({k: v for k, v in scens[r['sc']].items() if k != 'data2'}), ranks[r['sc']] or 'serial', r['m']), chunks=6)
import ops_wrap
nw = ops_wrap.check(c, np.random.default_rng(SEED + 1515), tpick(8, 60), ['pod'])
models.join()
c.finish(dict(method_calls=nw, records=len(recs), no_energy=sum(r['flat'] for r in recs), other_data=sum(not r['same'] for r in recs)))
