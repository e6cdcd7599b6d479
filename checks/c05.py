import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C05')
rng = np.random.default_rng(SEED + 5)
models = threading.Thread(target=lambda: c.model('Blocks', tpick(None, 'Blocks_t.cfg'), workers=4)); models.start()
scens, ranks = [], []
def add(n, ovl, nt, xs, nv, n_r, kind='array', splits=None, cplx=False, **kw):
    s = gen(rng, cplx=cplx, nt=nt, n=n, ovl=ovl, xshape=xs, nv=nv, lo=-50, hi=50, savefft=True, **kw)
    s['blocks'] = True; s['kind'] = kind
    if splits: s['splits'] = splits
    if kind != 'array': s['params'].update(savefreq_disk=False, savefreq_disk2=True); s.setdefault('splits', [nt])
    if rng.random() < .3: s['gain'] = 2.0 ** int(rng.choice([-40, -14, 11, 26]))
    scens.append(s); ranks.append(n_r)
def parts(nt, k):
    c_ = sorted(rng.choice(np.arange(1, nt), size=k - 1, replace=False).tolist()); c_ = [0] + c_ + [nt]
    return [b - a for a, b in zip(c_, c_[1:])]
# sweep of the partition arithmetic: every block length / overlap / record length
grid = [(n, ov, nt) for n in tpick((4, 5, 6, 8), range(4, 13)) for ov in tpick((0, 10, 25, 50, 51, 75), range(0, 92, 7)) for nt in range(n, 3 * n + 4)]
grid = [(n, ov, nt) for n, ov, nt in grid if n - -(-n * ov // 100) >= 1 and (nt - -(-n * ov // 100)) // (n - -(-n * ov // 100)) >= 2]
rng.shuffle(grid)
for n, ov, nt in grid[:tpick(90, 900)]:
    add(int(n), int(ov), int(nt), [1] if rng.random() < .7 else [2], 1, 0, splits=parts(nt, int(rng.integers(2, 4))) if rng.random() < .4 else None,
        mean_type=str(rng.choice(['zero', 'longtime', 'blockwise'])))
for k in range(tpick(36, 200)):
    n = int(rng.integers(4, 11)); ovl = int(rng.choice([0, 20, 50, 60, 75, 80]))
    stride = n - -(-n * ovl // 100)
    if stride < 1: continue
    nt = max(n + stride * int(rng.integers(1, 7)) + int(rng.integers(0, stride)), 9 if k % 2 else 0)
    nv = int(rng.integers(1, 3)); xs = [int(rng.integers(1, 5)) for _ in range(int(rng.integers(1, 3)))]
    kind = 'nc' if k % 2 and nt >= 9 else 'array'
    n_r = int(rng.choice([1, 2, 3])) if kind == 'nc' else int(rng.choice([0, 2, 3]))
    add(n, ovl, nt, xs, nv, n_r, kind, parts(nt, int(rng.integers(1, 4))) if rng.random() < .7 else None,
        cplx=(kind == 'array' and rng.random() < .3), mean_type=str(rng.choice(['zero', 'longtime', 'blockwise'])), reuse_blocks=bool(rng.random() < .2),
        fullspectrum=bool(rng.random() < .25))
outs = execute(c, scens, ranks)

def project(s, o):
    n = s['params']['n_dft']; nv = s['nv']; P = int(np.prod(s['xshape'])) * nv
    mean = s['params']['mean_type']; nt = len(s['data'])
    den = dict(longtime=nt, blockwise=n, zero=1)[mean]
    win = 0.54 - 0.46 * np.cos(2 * np.pi * np.arange(n) / (n - 1)); ww = 1 / win.mean()
    blk = []; g = s.get('gain', 1.0)
    for b in o['blocks']:
        q = np.array([np.array(re) + 1j * np.array(im) for re, im, sh in b])       # f x P
        if q.ndim != 2 or q.shape[1] != P: blk.append([]); continue
        full = o['nf'] == n
        x = (np.fft.ifft(q, axis=0) if full else np.fft.irfft(q, n=n, axis=0)) * n / ww / win[:, None] / g
        y = np.stack([x.real, x.imag if np.iscomplexobj(x) else 0 * x], -1) * den
        yi = np.rint(y)
        yi[~(np.abs(y - yi) < 1e-4)] = BIG
        blk.append(np.nan_to_num(yi, nan=BIG, posinf=BIG, neginf=BIG).clip(-BIG, BIG).astype(int).tolist())
    lt = o['ltm']; lt = np.array(lt, dtype=object)
    sh = tuple(o['ltmshape'])
    L = np.array(o['ltm'][0], float) + 1j * np.array(o['ltm'][1], float) if s.get('cplx') and np.array(o['ltm'], float).shape == (2,) + sh else np.array(o['ltm'], float)
    L = np.asarray(L).reshape(-1) * nt / g
    m = [[int(round(x.real)) if abs(x.real - round(x.real)) < 1e-4 else BIG, int(round(x.imag)) if abs(x.imag - round(x.imag)) < 1e-4 else BIG] for x in L.astype(complex)] if np.isfinite(L).all() else []
    g = re.match(r'nfft(\d+)_novlp(\d+)_nblks(\d+)$', o['dirname'])
    d = s['data'] if s.get('cplx') else [[[x, 0] for x in row] for row in s['data']]
    return dict(n=n, ovl=s['params']['overlap'], nt=nt, P=P, nv=nv, d=d, mean=mean, isreal=not s.get('cplx'), full=bool(s['params'].get('fullspectrum')),
                nb=o['nb'], nt_seen=o['nt'], files=o['nblockfiles'], dirnb=int(g.group(3)) if g else -1, dirnov=int(g.group(2)) if g else -1, blk=blk, ltm=m, normdata=False)
recs = []
for i in need(c, scens, outs, ranks):
    recs.append(dict(project(scens[i], outs[i][0]), id=i)); c.sample(brief(scens[i]))
c.judge('T_Blocks', recs, lambda r: '%s (%s ranks)' % (brief(scens[r['id']]), ranks[r['id']] or 'serial'), chunks=5)
models.join()
c.finish(dict(partition_sweep=min(len(grid), tpick(90, 900))))
