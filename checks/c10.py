import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
import storecheck
c = Check('C10')
models = threading.Thread(target=lambda: [c.model('Store', tpick(None, 'Store_t.cfg'), workers=3, timeout=800), c.model('Store', 'Store_u.cfg', workers=2)]); models.start()
storecheck.run(c, 'files', tpick(60, 400), SEED + 10, [0, 0, 0, 1, 2, 3])
# reading copies of result directories
rng = np.random.default_rng(SEED + 77)
scens, ranks = [], []
for k in range(tpick(10, 40)):
    two = k % 2 == 0
    n = int(rng.choice([4, 5, 8, 11, 22] if k < 8 else [4, 6, 8])) if k not in (6, 7) else 206   # more than a hundred frequencies
    nb = int(rng.choice([2, 3, 5, 12] if n < 11 else [2, 3]))
    if k == 2: n, nb = 4, 12        # more than ten modes
    xs = ([[5], [3, 2], [4], [2, 2, 2]][k % 4] if k != 2 else [17]) if n < 200 else [3]; nv = int(rng.choice([1, 2]))
    s = gen(rng, cplx=False, nt=max(9, n * nb), n=n, ovl=0, xshape=xs, nv=nv, lo=-9, hi=9)
    s.update(op='reads', mod='ops_store', variants=tpick(4, 8), rseed=int(rng.integers(1, 10 ** 6)))
    if k % 3 == 0: s['params']['n_modes_save'] = int(rng.integers(1, 4))
    if two: s['kind'] = 'nc'; s['splits'] = [len(s['data'])]; s['params'].update(savefreq_disk=False, savefreq_disk2=True)
    scens.append(s); ranks.append(int(rng.choice([2, 3])) if two else int(rng.choice([0, 2])))
outs = execute(c, scens, ranks)
recs = []
for i in need(c, scens, outs, ranks):
    o = outs[i][0]
    c.sample(brief(scens[i]))
    for v, r in enumerate(o['reads']):
        wf = lambda q: [[f, [] if x == 'shape' else x] for f, x in q]
        recs.append(dict(id=len(recs), s=i, v=v, nf=o['nf'], nm=o['nm'], ok=not r['err'], one=wf(r['one']), all=wf(r['all']), kept=r['kept'], cwd=r['cwd'], why=r['err']))
c.judge('T_Read', recs, lambda r: '%s (%s ranks), copy %d of the result directory %s' % (brief(scens[r['s']]), ranks[r['s']] or 'serial', r['v'], r['why']), chunks=2)
models.join()
c.finish()
