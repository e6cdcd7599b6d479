import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C12')
def design():
    c.model('Proj', tpick(None, 'Proj_t.cfg'), workers=3, timeout=800); c.model('Wrap', tpick(None, 'Wrap_t.cfg'), workers=3, timeout=800)
models = threading.Thread(target=design); models.start()
rng = np.random.default_rng(SEED + 1200)
scens, ranks, nlong = [], [], 0
shapes = [[12], [4, 3], [3, 4], [8], [2, 3, 2], [9], [5, 2], [2], [6], [3]]
for k in range(tpick(90, 400)):
    xs = shapes[int(rng.integers(0, len(shapes)))]
    span = k % 5 == 4          # as many modes as unknowns: everything lies in their span
    if span: xs = [[2], [3], [1], [2, 2]][int(rng.integers(0, 4))]
    nv = int(rng.choice([1, 1, 1, 2, 3])) if not span else int(rng.choice([1, 1, 2]))
    n = int(rng.choice([4, 4, 5, 6, 8])); ovl = int(rng.choice([0, 0, 50, 25]))
    stride = n - -(-n * ovl // 100)
    nb = int(rng.integers(2, 5))
    many = k % 30 == 7        # many modes
    if many: n, ovl, stride, nb, xs = 4, 50, 2, int(rng.integers(6, 8)), [8]
    nt = n + (nb - 1) * stride + int(rng.integers(0, stride))
    cplx = rng.random() < .25
    kw = dict(mean_type=str(rng.choice(['longtime', 'longtime', 'zero', 'blockwise'])))
    if rng.random() < .2: kw['fullspectrum'] = True
    if rng.random() < .15: kw['normalize_data'] = True
    if rng.random() < .1: kw['dtype'] = 'single'
    if span: kw['fullspectrum'] = True
    elif rng.random() < .6 and not many: kw['n_modes_save'] = int(rng.integers(1, 4))
    if rng.random() < .15 and max(xs) >= nv: kw['normalize_weights'] = True
    s = gen(rng, cplx=cplx, nt=nt, n=n, ovl=ovl, xshape=xs, nv=nv, lo=-9, hi=9, **kw)
    s['params']['time_step'] = float(rng.choice([1, .5, 2.0]))
    s.update(mod='ops_proj', op='project')
    if rng.random() < .6: s['weights'] = zeroed(rng, rng.integers(1, 6, size=int(np.prod(xs)) * nv).tolist())
    if rng.random() < .2: s['vaxis'] = True
    if rng.random() < .25: s['gain'] = 2.0 ** int(rng.choice([-12, 10] if kw.get('dtype') or kw.get('normalize_data') else [-40, -20, 12, 27]))
    if rng.random() < .2: s['xr'] = True
    if rng.random() < .2: s['svd'] = True
    if rng.random() < .15 and not span: s['conv'] = True
    if rng.random() < .1 and not span: s['single'] = True
    reweigh(rng, s)
    if rng.random() < .2 and not span: s['gaincoef'] = 2.0
    if rng.random() < .25 and not span: s['tol'] = float(rng.choice([1e-4, 1e-6, 1e-8]))
    if rng.random() < .2: s['named'] = True
    if rng.random() < .35: s['again'] = True
    if rng.random() < .3:
        nt2 = int(rng.integers(3, 40)); c2 = rng.random() < .2
        s['data2'] = rng.integers(-9, 10, size=(nt2, int(np.prod(xs)) * nv) + ((2,) if c2 else ())).tolist(); s['cplx2'] = c2
    long = int(np.prod(xs)) * nv <= 12 and not span and rng.random() < .12
    if long:                                    # long enough for every word that picks times
        nt2 = int(rng.integers(101, 230)); s['data2'] = rng.integers(-9, 10, size=(nt2, int(np.prod(xs)) * nv)).tolist(); s['cplx2'] = False
    if 'data2' in s and not s['cplx2'] and rng.random() < .5:      # integers, counts of many digits among them
        s['dtypein2'] = str(rng.choice(['int64', 'int32', 'int16', 'int64']))
        if s['dtypein2'] != 'int16': s['shift2'] = 2 ** 27 + 1
    ntp = len(s.get('data2') or s['data'])
    if s.get('gaincoef'): s['gaincoef'] = float(rng.choice([2.0, -0.5]))
    nfreq = n if (cplx or kw.get('fullspectrum')) else n // 2 + 1
    dt = s['params']['time_step']
    w = rng.random()
    if w < .25 or span: s['band'] = {}
    elif w < .55:
        q = sorted(rng.choice(nfreq, size=int(rng.integers(1, min(nfreq, 3) + 1)), replace=False).tolist())
        if rng.random() < .2: q = q[::-1]
        s['band'] = dict(freq_idx=[int(x) for x in q])
    elif w < .95:
        T = sorted(rng.uniform(1.6 * dt, 1.5 * n * dt, size=2).tolist())
        s['band'] = dict(T_lb=T[0], T_ub=T[1])
        if cplx and not kw.get('fullspectrum'):   # signed axis: the range must be one of the first half
            pass
    else: s['band'] = dict(T_lb=float(2 * dt))
    s['times'] = [None, 'all', 'half', 'quarter', 'tenth', 'hundredth', 'list', 'list'][int(rng.integers(0, 8))]
    if s['times'] == 'list':
        s['times'] = [int(x) for x in rng.integers(0, ntp, size=int(rng.integers(1, 6)))]
        if rng.random() < .2: s['times'][0] = -1
    if long: s['times'] = ['hundredth', 'tenth', 'quarter'][nlong % 3]; nlong += 1
    n_r = int(rng.choice([0, 2, 3, 4, 4, 5]))
    s['sizes'] = [0] if n_r == 0 else sorted(set([0] + [int(x) for x in rng.integers(1, n_r + 1, size=2)] + [n_r]))
    s['fitranks'] = int(rng.integers(0, n_r + 1)) if n_r else 0
    if s['fitranks'] and rng.random() < .3 and not cplx and nt >= 9:
        s['kind'] = 'nc'; s['splits'] = [nt - nt // 3, nt // 3]
        s['params'].update(savefreq_disk=False, savefreq_disk2=True)
        s.pop('vaxis', None) if nv > 1 else s.update(vaxis=True)
    if s['params'].get('normalize_weights') and nv > max(xs): s['params'].pop('normalize_weights')
    scens.append(s); ranks.append(n_r)
outs = execute(c, scens, ranks, split_jobs=tpick(1, 2))
recs = []
for i in need(c, scens, outs, ranks):
    recs.append(dict(outs[i][0], id=i))
    c.sample(brief({k: v for k, v in scens[i].items() if k != 'data2'}))
c.judge('T_Proj', recs, lambda r: '%s (%s ranks)' % (brief({k: v for k, v in scens[r['id']].items() if k != 'data2'}), ranks[r['id']] or 'serial'), chunks=6)
import ops_wrap
nw = ops_wrap.check(c, np.random.default_rng(SEED + 1212), tpick(16, 80), ['std', 'str'])
models.join()
c.finish(dict(method_calls=nw, well_conditioned=sum(r['well'] for r in recs), full_span=sum(r['full'] for r in recs), projected_again=sum(r['againdiff'] >= 0 for r in recs)))
