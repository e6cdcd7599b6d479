import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
from cmpfit import compare
c = Check('C11')
rng = np.random.default_rng(SEED + 11)
models = threading.Thread(target=lambda: c.model('BlockStore', tpick(None, 'BlockStore_t.cfg'), workers=3, timeout=850, heap='4g')); models.start()
num = tpick(48, 400)
hs, lock = {}, threading.Lock()
def generate(k):
    r = run_tlc('BlockStore', 'BlockGen.cfg', c.scratch, extra=('-simulate', 'num=%d' % (num * 3), '-depth', '120', '-seed', str(SEED * 100 + 11 + k)), tag='gen%d' % k)
    if r['rc'] != 0: c.error('generation: ' + r['out'][-800:])
    with lock:
        for l in r['out'].splitlines():
            if l.startswith('"HIST '):
                try: h = json.loads(json.loads(l)[5:])
                except ValueError: continue
                hs[json.dumps(h, sort_keys=True)] = h
pmap([lambda k=k: generate(k) for k in range(2)])
def worth(h):
    return sum(e['a'] == 'fit' and e['reuse'] for e in h) > 0 and sum(e['a'] == 'fit' and e['save'] for e in h) > 0
pool = [hs[k] for k in sorted(hs) if worth(hs[k])]
# histories in which a run reuses after something was saved, first
def score(h):
    sv = False; n = 0
    for e in h:
        if e['a'] == 'fit' and e['reuse'] and not e['crash'] and sv: n += 1
        if e['a'] == 'fit' and e['save']: sv = True
    return -n
rng.shuffle(pool); pool.sort(key=score)
# a complete store, some files deleted, reuse
def hole(h): return any(a['a'] == 'fit' and a['save'] and not a['crash'] and b['a'] == 'delete' and len(b['files']) < 4 and d['a'] == 'fit' and d['reuse'] and not d['crash'] for a, b, d in zip(h, h[1:], h[2:]))
hp = [h for h in pool if hole(h)][:num // 3]; rest = [h for h in pool if h not in hp]
m = num - len(hp); pool = hp + rest[:m * 2 // 3] + rest[len(rest) // 2:len(rest) // 2 + m - m * 2 // 3]
print(len(hp), 'histories with deleted files')
if len(pool) < num // 2: c.error('only %d histories' % len(pool))
scens, refs, meta = [], [], []
for h in pool:
    kind = str(rng.choice(['array', 'array', 'array', 'nc']))
    n = int(rng.choice([4, 5, 6])); ovl = int(rng.choice([0, 50]))
    xs = [[3], [2, 2], [5], [1, 4], [7]][int(rng.integers(0, 5))]; nv = int(rng.choice([1, 2, 3]))
    stride = n - -(-n * ovl // 100); nb = int(rng.integers(2, 5))
    nt = max(n + (nb - 1) * stride, 9 if kind == 'nc' else 0); nb = (nt - (n - stride)) // stride
    cp = kind == 'array' and rng.random() < .3
    kw = {}
    if rng.random() < .3: kw['mean_type'] = 'blockwise'
    if rng.random() < .3: kw['fullspectrum'] = True
    if rng.random() < .2: kw['dtype'] = 'single'
    if rng.random() < .4: kw['n_modes_save'] = 2
    base = gen(rng, cplx=cp, nt=nt, n=n, ovl=ovl, xshape=xs, nv=nv, lo=-50, hi=50, **kw)
    r2 = gen(rng, cplx=cp, nt=nt, n=n, ovl=ovl, xshape=xs, nv=nv, lo=-50, hi=50, **kw)
    if rng.random() < .5: base['vaxis'] = True
    nf = n if kw.get('fullspectrum') or cp else n // 2 + 1
    for e in h:
        if e['a'] == 'fit' and e['crash']:
            e['partial'] = bool(rng.random() < .5)
            if e['n'] == 0: e['clean'] = bool(rng.random() < .4)
        if e['a'] == 'delete': e['at'] = [nb - 1, nf - 1] if rng.random() < .2 else [int(rng.integers(1, nb)), int(rng.integers(1, nf))]
    s = dict(base, mod='ops_blocks', op='replay', hist=h, kind=kind, nb=nb, nf=nf, splits=[nt] if kind == 'nc' else None,
             recs={'1': dict(data=base['data']), '2': dict(data=r2['data'])})
    s.pop('data')
    scens.append(s)
    for d in ('1', '2'): refs.append(dict(base, data=s['recs'][d]['data'], mod='ops_spod', op='fit'))
outs = execute(c, refs + scens, [0] * len(refs) + [3] * len(scens), split_jobs=3)
good = set(need(c, refs, outs[:len(refs)], [0] * len(refs)))
recs = []
for k, (s, o) in enumerate(zip(scens, outs[len(refs):])):
    what = json.dumps(s['hist'])
    if isinstance(o, dict) or any('error' in x for x in o):
        c.violation(None, 'history %s: %s' % (what, problem(o)), s); continue
    c.sample(what[:400])
    single = s['params'].get('dtype') == 'single'
    for i, e in enumerate(s['hist']):
        ev = [x['events'][i] for x in o if i < len(x['events'])]
        if e['a'] != 'fit' or not ev: continue
        err = [x['error'] for x in ev if 'error' in x]
        r = dict(id=len(recs), hist=k, k=i, err=bool(err), why=err[:1], crashed=any('crashed' in x for x in ev) or any('ignored' in x for x in ev) and e['crash'] > 0, save=e['save'] and not e['reuse'], nfiles=0, cmp={})
        if not err and not r['crashed']:
            j = 2 * k + (e['d'] - 1)
            if j not in good: continue
            res = [x['r'] for x in ev if 'r' in x]
            r['cmp'] = compare(outs[j][0], res[0], 1e-5 if single else 1e-9, res)
            r['cmp'].update(tol=1, thr=5000 if single else 20, cm=10000)
            r['nfiles'] = res[0]['nfiles']
        recs.append(r)
def describe(r):
    s = scens[r['hist']]
    return 'history %s, run %d %s (%s)' % (json.dumps(s['hist'][:r['k'] + 1]), r['k'] + 1, ' '.join(r['why']), brief({k: v for k, v in s.items() if k not in ('hist', 'recs')}))
c.judge('T_Bstore', recs, describe, chunks=3)
models.join()
c.finish()
