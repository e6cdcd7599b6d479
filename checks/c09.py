import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C09')
rng = np.random.default_rng(SEED + 9)
models = threading.Thread(target=lambda: c.model('Freq', workers=2)); models.start()
scens, ranks = [], []
cases = [(n, cp, fu, m, cl) for n in tpick((4, 5, 6, 7, 8, 9, 11, 12), range(4, 18)) for cp in (0, 1) for fu in (0, 1) for m in range(n) for cl in ('std', 'str')
         if (cp or 2 * m <= n)]
rng.shuffle(cases)
long = [(n, cp, 0, m, 'std') for n in (45, 64, 100) for cp in (0, 1) for m in ((1, n // 2, n - 1) if cp else (1, n // 2 - 1, n // 2))]      # long blocks
rng.shuffle(long); cases = [tuple(q) for q in long[:tpick(6, 18)]] + [tuple(q) for q in cases]
for n, cp, fu, m, cl in cases[:tpick(110, 700)]:
    n, cp, fu, m = int(n), bool(int(cp)), bool(int(fu)), int(m)
    nt = n * int(rng.integers(2, 5)) + int(rng.integers(0, n))
    ovl = int(rng.choice([0, 50, 25]))
    P = int(rng.integers(1, 4))
    dt = float(rng.choice([1.0, 0.1, 0.25, 2.0, 12.5, 1 / 3, 1e-3, 7.0]))
    amp = rng.integers(1, 4, size=P); ph = float(rng.random() * 2 * np.pi) if cp or (2 * m) % n else 0.0
    th = 2 * np.pi * m * np.arange(nt)[:, None] / n + ph
    x = amp * (np.exp(1j * th) if cp else np.cos(th))
    data = np.stack([x.real, x.imag], -1) if cp else x
    n_r = int(rng.choice([0, 0, 0, 0, 0, 1, 2]))
    s = dict(mod='ops_spod', op='fit', cls=str(cl), data=data.tolist(), cplx=cp, xshape=[P], nv=1, m=m,
             params=dict(time_step=dt, n_dft=n, overlap=ovl, fullspectrum=fu, mean_type='zero', n_modes_save=2))
    if cl == 'str': s['params']['n_modes_save'] = 1
    scens.append(s); ranks.append(n_r)
outs = execute(c, scens, ranks)
recs = []
for i in need(c, scens, outs, ranks):
    s, o = scens[i], outs[i][0]
    n, dt, m = s['params']['n_dft'], s['params']['time_step'], s['m']
    full, isreal, st = s['params']['fullspectrum'], not s['cplx'], s['cls'] == 'str'
    E = np.array(o['eigs'], float); E = E[0] + 1j * E[1] if E.ndim == 3 else E
    en = np.abs(E) ** (2 if st else 1); en = en.reshape(o['eigs_shape']).sum(axis=1)
    nf = len(en)
    pk = [int(k) for k in np.flatnonzero(en >= .95 * en.max())] if np.isfinite(en).all() else [-1]
    # streaming subtracts a running mean and scales interior bins by their amplitude convention
    chk = True
    if st: chk = (s['cplx'] and m != 0) or (isreal and not full and 0 < m < nf - 1 and n >= 6)
    # leakage of a real signal's two components into the bins next to 0 and Nyquist
    if isreal and full: chk = chk and (m in (0, n / 2) or (n >= 8 and 2 <= m <= n // 2 - 2))
    if isreal and not full: chk = chk and (n >= 6 or m in (0, n / 2))
    recs.append(dict(id=i, n=n, isreal=isreal, full=full, m=m, fr=[fx(f * n * dt, 1e6) for f in o['freq']],
                     neig=o['eigs_shape'][0], nmodes=len(o['modes']), nfattr=o['nf'], same=all(x['attr_freq'] == o['file_freq'] and x['attr_eigs'] == o['file_eigs'] for x in outs[i]),
                     peak=pk, chk=chk))
    c.sample(brief(s))
c.judge('T_Freq', recs, lambda r: '%s (%s ranks)' % (brief(scens[r['id']]), ranks[r['id']] or 'serial'), chunks=3)
models.join()
c.finish()
