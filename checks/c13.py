import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
import storecheck
c = Check('C13')
models = threading.Thread(target=lambda: [c.model('Store', tpick(None, 'Store_t.cfg'), workers=3, timeout=800), c.model('Store', 'Store_u.cfg', workers=2), c.model('Args', tpick(None, 'Args_t.cfg'), workers=2)]); models.start()
# sequences of calls that share the caller's objects
rng = np.random.default_rng(SEED + 1300)
P = lambda p: bool(rng.random() < p)
NAMES = ['fit', 'fit one', 'refit', 'fit other', 'stream', 'coeffs', 'coeffs svd', 'coeffs single', 'conv', 'recon', 'recon given', 'recon single', 'ortho', 'nearest', 'errors', 'spectrum',
         'scaling', 'npy', 'plots', 'maps', 'pvar', 'allmodes', 'pod', 'pod refit', 'pod coeffs', 'pod coeffs other', 'pod recon', 'pod recon given']
scens, ranks = [], []
for k in range(tpick(20, 160)):
    xs = [[4], [3, 2], [2, 4], [5], [2, 3, 2]][int(rng.integers(0, 5))]; nv = int(rng.choice([1, 1, 2]))
    n = int(rng.choice([4, 5, 6])); cplx = P(.3); nt = int(rng.integers(2 * n, 4 * n))
    kw = dict(n_modes_save=2, mean_type=str(rng.choice(['longtime', 'blockwise', 'zero'])))
    if P(.3): kw['normalize_weights'] = True
    if P(.3): kw['normalize_data'] = True
    if P(.2): kw['fullspectrum'] = True
    if P(.15): kw['dtype'] = 'single'
    s = gen(rng, cplx=cplx, nt=nt, n=n, ovl=int(rng.choice([0, 50])), xshape=xs, nv=nv, lo=-9, hi=9, **kw)
    s.update(mod='ops_args', op='calls', gain=.37)
    s['weights'] = zeroed(rng, rng.integers(1, 5, size=int(np.prod(xs)) * nv).tolist())
    if kw.get('normalize_weights'): s['vaxis'] = True
    if P(.5): s['vaxis'] = True
    if P(.3): s['layout'] = 'F'
    if P(.2): s['xr'] = True
    if not cplx and P(.25): s['dtypein'] = str(rng.choice(['float32', 'int64', 'int32'])); s['gain'] = 1.0
    nf = n if cplx or kw.get('fullspectrum') else n // 2 + 1
    s['fidx'] = [int(x) for x in rng.permutation(nf)[:int(rng.integers(2, min(nf, 3) + 1))]]
    if P(.5): s['fidx'] = sorted(s['fidx'])[::-1]
    s['tidx'] = [int(x) for x in rng.permutation(nt)[:4]]
    s['norm'] = str(rng.choice(['localmax', 'globalmax', 'variance']))
    q = list(rng.permutation(NAMES)); s['calls'] = [str(x) for x in q + list(rng.permutation(NAMES))]
    scens.append(s); ranks.append(int(rng.choice([0, 0, 0, 1, 2, 3])))
outs = execute(c, scens, ranks, width=3)
recs = []
for i in need(c, scens, outs, ranks):
    for r in outs[i][0]['out']: recs.append(dict(r, id=len(recs), hist=i))
    c.sample('%s: %s' % (brief({k: v for k, v in scens[i].items() if k != 'calls'}), ' '.join(scens[i]['calls'][:4])))
c.judge('T_Args', recs, lambda r: '%s in %s (%s ranks)' % (r['key'], brief({k: v for k, v in scens[r['hist']].items() if k != 'calls'}), ranks[r['hist']] or 'serial'), chunks=1)
storecheck.run(c, 'inputs', tpick(60, 400), SEED + 13, [0, 0, 0, 1, 2, 3])
models.join()
c.finish()
