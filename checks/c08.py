import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
from spodgen import scenarios
c = Check('C08')
models = threading.Thread(target=lambda: c.model('SpodDesign', tpick(None, 'SpodDesign_t.cfg'), workers=tpick(2, 4)))
models.start()
scens, ranks = scenarios(np.random.default_rng(SEED + 1000), tpick(36, 220), want='mode')
outs = execute(c, scens, ranks)
recs = []
for i in need(c, scens, outs, ranks):
    o = outs[i][0]
    recs.append(dict(record(scens[i], o, want='mode'), id=i))
    c.sample(brief(scens[i]))
c.judge('T_Spod', recs, lambda r: '%s (%s ranks)' % (brief(scens[r['id']]), ranks[r['id']] or 'serial'), chunks=6)
# the orthogonality check: any choice of modes, any number of ranks
orng = np.random.default_rng(SEED + 1400)
os_, oranks = [], []
for k in range(tpick(18, 90)):
    xs = [[3], [2, 2], [5], [4], [2, 3], [2, 1, 2]][k % 6]; nv = int(orng.integers(1, 3)); n = int(orng.choice([4, 5, 6])); nb = int(orng.integers(2, 6)); cplx = k % 4 == 3
    s = gen(orng, cplx=cplx, nt=n * nb, n=n, ovl=0, xshape=xs, nv=nv, mean_type=['longtime', 'blockwise', 'zero'][k % 3])
    if k % 2: s['weights'] = zeroed(orng, orng.integers(1, 4, size=int(np.prod(xs)) * nv).tolist())
    if k % 5 == 4: s['params']['n_modes_save'] = max(1, nb - 1)
    nm = s['params'].get('n_modes_save', nb)
    pick = lambda: int(orng.integers(0, nm)) if orng.random() < .3 else [int(x) for x in orng.integers(0, nm, size=int(orng.integers(1, 5)))]
    m1 = pick(); m2 = m1 if k % 3 == 0 else pick()
    n_r = (0, 3, 2, 4)[k % 4]
    s.update(mod='ops_ortho', op='ortho', m1=m1, m2=m2, f=int(orng.integers(0, n // 2 + 1)), fitranks=(0, 2, 1, 3)[k % 4] if n_r else 0, sizes=list(range(n_r + 1)))
    os_.append(s); oranks.append(n_r)
oouts = execute(c, os_, oranks, tag='o', width=3)
orecs = []
for i in need(c, os_, oouts, oranks):
    orecs.append(dict(oouts[i][0], id=i)); c.sample(brief(os_[i]))
c.judge('T_Ortho', orecs, lambda r: '%s (%s ranks)' % (brief(os_[r['id']]), oranks[r['id']] or 'serial'))
models.join()
c.finish()
