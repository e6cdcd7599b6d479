import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C04')
rng = np.random.default_rng(SEED + 400)
P = lambda p: rng.random() < p
models = threading.Thread(target=lambda: [c.model('MpiModel', g, workers=1, timeout=800) for g in tpick([None, 'MpiModel_i.cfg'], [None, 'MpiModel_t.cfg'])]); models.start()
shapes = [[3], [5], [2, 3], [4, 2], [1, 6], [2, 2, 3], [7], [1], [2, 1]]
scens, ranks = [], []
def base(kind, k):
    n = int(rng.choice([4, 4, 5, 6])); ovl = int(rng.choice([0, 50, 25])); stride = n - -(-n * ovl // 100)
    nb = int(rng.integers(2, 4)); nt = n + (nb - 1) * stride + int(rng.integers(0, stride))
    if kind == 'nc': nt = max(nt, 9)
    xs = shapes[int(rng.integers(0, len(shapes)))]; nv = int(rng.choice([1, 1, 2]))
    if kind == 'mat': xs = [[2, 3, 2], [2, 2, 3], [3, 1, 2]][int(rng.integers(0, 3))]
    kw = dict(mean_type=str(rng.choice(['longtime', 'blockwise', 'zero'])))
    if P(.2): kw['normalize_data'] = True
    if P(.2): kw['fullspectrum'] = True
    if P(.15): kw['dtype'] = 'single'
    if P(.5): kw['n_modes_save'] = int(rng.integers(1, 4))
    if P(.2): kw['normalize_weights'] = True
    s = gen(rng, cplx=kind == 'array' and P(.2), nt=nt, n=n, ovl=ovl, xshape=xs, nv=nv, lo=-9, hi=9, **kw)
    s.update(mod='ops_mpi', op='prog', kind=kind)
    if P(.4): s['weights'] = rng.integers(1, 5, size=int(np.prod(xs)) * nv).tolist()
    if nv > 1 or P(.3): s['vaxis'] = True
    if kind == 'nc':
        q = int(rng.integers(1, nt)); s['splits'] = [q, nt - q] if P(.5) else [nt]
    elif kind == 'array' and P(.3): q = int(rng.integers(1, nt)); s['splits'] = [q, nt - q]
    if kind != 'array': s['params'].update(savefreq_disk=False, savefreq_disk2=P(.7))
    if kind == 'nc' and P(.3): s['params']['n_modes_save'] = 1
    if nv > 1 and kw.get('normalize_weights') and max(xs) < nv: s['params'].pop('normalize_weights')
    return s
for k in range(tpick(63, 450)):
    n_r = int(rng.choice([2, 2, 3, 3, 4]))
    fam = ['std', 'file', 'reuse', 'proj', 'str', 'pod', 'util', 'fault', 'fault'][k % 9]
    kind = 'array'
    if fam in ('file', 'fault'): kind = str(rng.choice(['nc', 'nc', 'mat']))
    if fam == 'reuse' and P(.3): kind = 'nc'
    s = base(kind, k); nf = s['params']['n_dft'] if s.get('cplx') or s['params'].get('fullspectrum') else s['params']['n_dft'] // 2 + 1
    S = []
    if fam == 'std':
        if P(.5): s['params']['savefft'] = True
        if P(.2): s['params']['savefreq_disk'] = False
        S = [dict(do='fit')] + ([dict(do='fit', params=dict(n_modes_save=1))] if P(.5) else [])
    elif fam == 'fault':
        S = [dict(do='fit')]; n = len(s['data']) if kind == 'mat' else len(s['splits'])
        s['spoil'] = [int(rng.integers(0, n)), str(rng.choice(['gone', 'shape', 'nan', 'junk', 'junk'] if kind == 'mat' else ['gone', 'junk'] + (['shape'] if n > 1 else []) + (['var'] * 3 if s['nv'] > 1 else [])))]
        if kind == 'nc' and s['spoil'][1] == 'shape': s['spoil'][0] = 1
        if s['spoil'][1] == 'var': s['spoilvar'] = 'v%d' % rng.integers(0, s['nv'])
    elif fam == 'file': S = [dict(do='fit')] + ([dict(do='fit')] if P(.3) else [])
    elif fam == 'reuse':
        S = [dict(do='fit', params=dict(savefft=True))]
        if P(.7): S.append(dict(do='lose', what='res/*/blocks/fft_block*', which=sorted(set(float(x) for x in rng.choice([0, .25, .5, .75, 1], size=int(rng.integers(1, 4)))))))
        S.append(dict(do='fit', params=dict(savefft=P(.6), reuse_blocks=True)))
        if P(.4): S.append(dict(do='fit', params=dict(savefft=True, reuse_blocks=True)))
    elif fam == 'proj':
        s['params']['savefreq_disk'] = True; s['params'].pop('normalize_data', None)
        S = [dict(do='fit')]
        T = len(s['data'])
        S.append(dict(do='coeffs', sub='a' if P(.5) else None, svd=P(.5)) if P(.6) else dict(do='conv', sub='a' if P(.5) else None))
        S.append(dict(do='recon', times=[None, 'all', 'half'][int(rng.integers(0, 3))] if P(.5) else [0, 1], **(dict(sub='q', file='z') if P(.4) else {})))
        if P(.5): S.append(dict(do='recon', times=[0]))
        if P(.4): S.append(dict(do='coeffs', sub='b')); S.append(dict(do='recon', times='all'))
        if P(.3): S.append(dict(do='getmodes', f=0))
    elif fam == 'str':
        S = [dict(do='fit', cls='str')] + ([dict(do='fit', cls='std')] if P(.3) else []) + ([dict(do='fit', cls='str')] if P(.3) else [])
        if P(.3): S += [dict(do='coeffs'), dict(do='recon', times=[0])]
        s['params'].pop('normalize_weights', None); s['params'].pop('normalize_data', None)
    elif fam == 'pod':
        s['cplx'] = False
        s['data'] = [[x if not isinstance(x, list) else x[0] for x in row] for row in s['data']]
        S = [dict(do='podfit'), dict(do='podcoeffs', sub='a' if P(.5) else None), dict(do='podrecon', times='all' if P(.5) else [0, 1])]
        if P(.4): S.append(dict(do='podfit'))
        s['params'].pop('normalize_data', None)
        s['params'] = {q: v for q, v in s['params'].items() if q in ('n_modes_save', 'time_step', 'dtype', 'normalize_weights', 'mean_type')}
        s['params'].pop('normalize_weights', None); s['params']['mean_type'] = 'longtime'
    else:
        shp = [int(x) for x in rng.integers(1, 6, size=int(rng.integers(1, 4)))]
        S = [dict(do='npy', shape=shp), dict(do='pvar'), dict(do='dist'), dict(do='allreduce'), dict(do='npy', shape=shp)]
        s['cplx'] = False; s['data'] = [[x if not isinstance(x, list) else x[0] for x in row] for row in s['data']]
    s['steps'] = S
    scens.append(s); ranks.append(n_r)
outs = execute(c, scens, ranks, split_jobs=2, width=6)
def norm(i):
    s, o = scens[i], outs[i]
    paths = {}
    keys = sorted({k for x in o for k in x['ids']}, key=lambda k: (len(k), k))
    ci = {k: j + 1 for j, k in enumerate(keys)}
    ids = {}
    for x in o: ids.update(x['ids'])
    ch = {}
    before = set(o[0]['before'])
    progs = []
    for x in o:
        pr = []
        at = {}
        for j, e in enumerate(x['log']):
            e = dict(e)
            # directories that were there before: making them again is nothing
            if e['k'] == 'fs' and e['act'] == 'E' and e['path'] in before: e['act'] = 'T'
            e['path'] = e['path'].split('/') if e['path'] else []
            if e['k'] in ('coll', 'icoll'): e['comm'] = ci[e['comm']]
            else: e['comm'] = 1
            e['ch'] = ch.setdefault(e['ch'], len(ch) + 1) if e['k'] in ('send', 'recv') else 0
            pr.append(e); at[j + 1] = len(pr)
        for e in pr: e['of'] = [at[q] for q in e['of']]
        progs.append(pr)
    return dict(id=i, prog=progs, comms=[[m + 1 for m in ids[k]] for k in keys], chans=len(ch))
recs, errs = [], 0
for i in need(c, scens, outs, ranks):
    o = outs[i]
    es = [x['err'] for x in o]
    if any(es):
        if not all(es): c.violation(None, '%s (%s ranks): some ranks raise and others do not: %s' % (brief(scens[i]), ranks[i], es), dict(scenario=scens[i], ranks=ranks[i])); continue
        if not scens[i].get('spoil'): errs += 1; c.violation(None, '%s (%s ranks): %s' % (brief(scens[i]), ranks[i], es[0]), dict(scenario=scens[i], ranks=ranks[i])); continue
    elif scens[i].get('spoil'): continue        # not noticed: nothing about completion
    if any(x['wild'] for x in o): continue
    recs.append(norm(i)); c.sample('%s %s ranks, %s operations' % (json.dumps(scens[i]['steps'])[:150], ranks[i], [len(x['log']) for x in o]))
bad = {}
def tlc(part, k):
    f = os.path.join(c.scratch, 'mpi%d.ndjson' % k)
    with open(f, 'w') as h:
        for r in part: h.write(json.dumps(r) + '\n')
    r = run_tlc('T_Mpi', 'T_Mpi.cfg', c.scratch, env=dict(TRACE=f, OUT=f + '.out'), workers=1, timeout=800, heap='3g')
    if r['rc'] != 0: c.error('T_Mpi: TLC exit %s\n%s' % (r['rc'], r['out'][-1500:]))
    return r
K = 6
rs = pmap([lambda k=k: tlc(recs[k::K], k) for k in range(K) if recs[k::K]], width=6)
for r in rs:
    c.cov['states'] += r['distinct']; c.cov['transitions'] += r['generated']
    for l in r['out'].splitlines():
        if l.startswith('"BAD '):
            b = json.loads(json.loads(l)[4:]); bad.setdefault(b['id'], set()).add(b['c'])
c.cov['traces_validated_against_impl'] += len(recs)
for i, cl in sorted(bad.items()):
    c.violation(None, '%s %s (%s ranks): %s' % (json.dumps(scens[i]['steps']), brief(scens[i])[:150], ranks[i], '; '.join(sorted(cl)[:3])), dict(scenario=scens[i], ranks=ranks[i]))
models.join()
c.finish(dict(operations=sum(len(p) for r in recs for p in r['prog']), interleaving_states=sum(r['distinct'] for r in rs)))
