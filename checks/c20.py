import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C20')
rng = np.random.default_rng(SEED + 20)
models = threading.Thread(target=lambda: c.model('Conf', workers=2)); models.start()
scens, ranks = [], []
for nb in tpick((2, 3, 5, 9, 17, 40), (2, 3, 4, 5, 7, 9, 13, 17, 25, 40, 80)):
    levs = [0.6, 0.65, 0.7, 0.8, 0.9, 0.95, 0.99, 0.999, 0.95, 0.9] + ([0.61, 0.75, 0.975, 0.995, 0.9999] if THOROUGH else [float(np.round(rng.uniform(.6, .999), 3))])
    for j, lev in enumerate(levs):
        n = int(rng.choice([4, 5, 6, 8])); ovl = int(rng.choice([0, 50]))
        st = n - -(-n * ovl // 100)
        kw = dict(conf_level=lev, mean_type=str(rng.choice(['longtime', 'zero', 'blockwise'])), fullspectrum=bool(rng.random() < .3), dtype=str(rng.choice(['double', 'double', 'single'])))
        s = gen(rng, nt=n + (nb - 1) * st, n=n, ovl=ovl, xshape=[int(rng.integers(1, 4))], nv=int(rng.integers(1, 3)), cplx=bool(rng.random() < .25), **kw)
        s['params']['n_modes_save'] = 1
        if j % 3 == 1: s['gain'] = float(rng.choice([1e-5, 1e4] if kw['dtype'] == 'single' else [1e-12, 1e-6, 1e7]))
        scens.append(s); ranks.append(2 if j == 3 else 0)
outs = execute(c, scens, ranks)
recs = []
for i in need(c, scens, outs, ranks):
    s, o = scens[i], outs[i][0]
    cv = lambda x: (np.array(x[0]) + 1j * np.array(x[1])) if isinstance(x[0][0], list) else np.array(x, dtype=complex)
    E, L, U = cv(o['eigs']), cv(o.get('cl', [[0]])), cv(o.get('cu', [[0]]))
    shape = E.shape == L.shape == U.shape
    fin = shape and all(np.isfinite(x).all() and np.abs(x.imag).max() <= 1e-12 * (np.abs(x).max() + 1e-300) for x in (E, L, U))
    ord_, fl, fu = [], [], []
    if fin:
        E, L, U = E.real, L.real, U.real
        big = E > 1e-7 * E.max()
        for f in range(E.shape[0]):
            row = []
            for k in range(E.shape[1]):
                u = sorted({L[f, k], E[f, k], U[f, k]}); row.append([u.index(x[f, k]) for x in (L, E, U)])
            ord_.append(row)
        fl = [fx(x, 1e6) for x in (L[big] / E[big])][:40]; fu = [fx(x, 1e6) for x in (U[big] / E[big])][:40]
    recs.append(dict(id=i, hist=o['nb'], nb=o['nb'], lev=int(round(s['params']['conf_level'] * 10000)), shape=shape, fin=fin, ord=ord_, fl=fl, fu=fu))
    c.sample(brief(s))
c.judge('T_Conf', recs, lambda r: '%s (%s ranks)' % (brief(scens[r['id']]), ranks[r['id']] or 'serial'), chunks=3)
models.join()
c.finish()
