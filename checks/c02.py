import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
from cmpfit import compare
c = Check('C02')
rng = np.random.default_rng(SEED + 2)
models = threading.Thread(target=lambda: c.model('Spmd', tpick(None, 'Spmd_t.cfg'), workers=4, timeout=700)); models.start()
scens, ranks, pairs = [], [], []
def parts(nt, k):
    c_ = sorted(rng.choice(np.arange(1, nt), size=k - 1, replace=False).tolist()) if k > 1 else []
    c_ = [0] + c_ + [nt]
    return [int(b - a) for a, b in zip(c_, c_[1:])]
shapes = [[1], [2], [3], [5], [7], [11], [2, 2], [3, 4], [4, 1], [1, 6], [2, 3, 2], [1, 1, 4], [6, 2], [3, 3]]
for k in range(tpick(46, 260)):
    n_r = int(rng.choice(tpick([1, 2, 3, 3, 4, 5, 6], [1, 2, 3, 4, 5, 6, 7, 8])))
    xs = shapes[int(rng.integers(0, len(shapes)))]
    nv = int(rng.choice([1, 1, 2, 3]))
    n = int(rng.choice([4, 5, 6, 7, 8, 9, 12])); ovl = int(rng.choice([0, 0, 50, 25, 70]))
    stride = n - -(-n * ovl // 100)
    nb = int(rng.integers(2, 7))
    if k % 15 == 7: n, ovl, stride, nb = 24, 0, 24, int(rng.integers(5, 9))        # many files
    nt = n + (nb - 1) * stride + int(rng.integers(0, stride))
    kind = 'nc' if nt >= 9 and (rng.random() < .4 or k % 15 == 7) else ('mat' if len(xs) == 3 and rng.random() < .5 else 'array')
    cp = kind == 'array' and bool(rng.random() < .3)
    kw = dict(mean_type=str(rng.choice(['longtime', 'blockwise', 'zero'])))
    if rng.random() < .25: kw['normalize_data'] = True
    if rng.random() < .25: kw['fullspectrum'] = True
    if rng.random() < .2: kw['dtype'] = 'single'
    if rng.random() < .5 and k % 15 != 7: kw['n_modes_save'] = int(rng.integers(1, 7))
    if rng.random() < .3: kw['conf_level'] = float(rng.choice([.8, .9, .99]))
    if rng.random() < .25 and (kind != 'array' or max(xs) >= nv or n_r == 1): kw['normalize_weights'] = True
    s = gen(rng, cplx=cp, nt=nt, n=n, ovl=ovl, xshape=xs, nv=nv, lo=-60, hi=60, **kw)
    s['params']['time_step'] = float(rng.choice([1.0, .1, 12.0]))
    P = int(np.prod(xs)) * nv
    if rng.random() < .5: s['weights'] = zeroed(rng, rng.integers(1, 5, size=P).tolist()); s['wscale'] = float(rng.choice([1, 3, 100])); reweigh(rng, s)
    if rng.random() < .3: s['vaxis'] = True
    s['gain'] = float(rng.choice([1.0, .01, 30.0, 1.0, 1e6] + ([] if kw.get('dtype') or kw.get('normalize_data') else [1e-12]))); s['shift'] = float(rng.choice([0.0, 0.0, 5.0])) if s['gain'] > 1e-6 else 0.0
    if kw.get('normalize_weights') and kind == 'array' and nv > 1: s['vaxis'] = True
    ref = dict(s); par = dict(s)
    if rng.random() < .4: par['splits'] = parts(nt, int(rng.integers(2, 4)))
    par['params'] = dict(s['params'])
    if kind != 'array':
        par['kind'] = kind; par['params'].update(savefreq_disk=False, savefreq_disk2=True)
        if kind == 'nc': par.setdefault('splits', [nt])
    if rng.random() < .15: par['params']['savefft'] = True
    pairs.append((len(scens), len(scens) + 1))
    scens += [ref, par]; ranks += [0, n_r]
outs = execute(c, scens, ranks)
good = set(need(c, scens, outs, ranks))
recs = []
for a, b in pairs:
    if not (a in good and b in good): continue
    single = scens[a]['params'].get('dtype') == 'single'
    r = compare(outs[a][0], outs[b][0], 1e-5 if single else 1e-9, outs[b])
    r.update(id=b, tol=1, thr=5000 if single else 20, cm=10000 if scens[a]['shift'] == 0 or single else 10)
    recs.append(r); c.sample('%s (%s ranks)' % (brief(scens[b]), ranks[b]))
c.judge('T_Spmd', recs, lambda r: '%s (%s ranks against serial)' % (brief(scens[r['id']]), ranks[r['id']]), chunks=3)
models.join()
c.finish()
