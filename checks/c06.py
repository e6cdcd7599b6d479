import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C06')
rng = np.random.default_rng(SEED + 6)
models = threading.Thread(target=lambda: c.model('Reader', tpick(None, 'Reader_t.cfg'), workers=4)); models.start()
def parts(nt, k):
    k = min(k, nt)
    c_ = sorted(rng.choice(np.arange(1, nt), size=k - 1, replace=False).tolist()) if k > 1 else []
    c_ = [0] + c_ + [nt]
    return [int(b - a) for a, b in zip(c_, c_[1:])]
def requests(nt):
    q = ['all']
    q.append([int(rng.integers(0, nt))])
    for _ in range(2):
        a = int(rng.integers(0, nt)); q.append([a, int(rng.integers(a + 1, nt + 1))])
    if rng.random() < .3: q += [[t] for t in range(nt)]
    return [q[i] for i in rng.permutation(len(q))]
scens, ranks = [], []
for n_r in tpick((0, 1, 2, 3, 5), (0, 1, 2, 3, 4, 5, 6, 7, 8)):
    for k in range(tpick(26, 140)):
        kind = '1' if n_r == 0 or k % 5 < 2 else ('2' if k % 5 < 4 else 'm')
        xdim = 3 if kind == 'm' else int(rng.integers(1, 4))
        xs = [int(rng.choice([1, 2, 3, 4, 5])) for _ in range(xdim)]
        while int(np.prod(xs)) > 24: xs[int(np.argmax(xs))] -= 1
        nv = int(rng.choice([1, 1, 2, 3]))
        nt = int(rng.integers(2, 13)) if kind != '2' else int(rng.integers(9, 20))
        s = dict(mod='ops_read', op='read', kind=kind, xshape=xs, nv=nv, nt=nt, splits=parts(nt, int(rng.integers(1, 5))), req=requests(nt),
                 dtype=str(rng.choice(['float64', 'float64', 'float32'])))
        s['cplx'] = [0] * len(s['splits'])
        if s['dtype'] == 'float64' and rng.random() < .4: s['base'] = 2 ** 40   # more digits than a float32 holds
        if kind == '1':
            s['vaxis'] = nv > 1 or bool(rng.random() < .3)
            s['xr'] = bool(rng.random() < .25); s['bare'] = bool(rng.random() < .5)
            s['layout'] = str(rng.choice(['C', 'C', 'F', 'step']))
            if rng.random() < .5: s['cplx'] = [int(rng.choice([0, 1, 2, 3])) for _ in s['splits']] if rng.random() < .6 else [int(q) for q in rng.permutation([3] + [0 if rng.random() < .5 else 2] * (len(s['splits']) - 1))]
            if rng.random() < .3: s['dtypein'] = str(rng.choice(['float32', 'int32', 'int64'])); s['base'] = 0
            if rng.random() < .25: s['mixed'] = str(rng.choice(['int16', 'float32', 'float64', 'int64'])); s['base'] = 0
        elif kind == '2':
            if rng.random() < .5: s['nreaders'] = int(rng.integers(1, n_r + 2))
            s['names'] = [int(x) for x in rng.permutation(nv)]; s['zfirst'] = bool(rng.random() < .4); s['dimorder'] = bool(nv > 1 and rng.random() < .3)
            s['varorder'] = bool(rng.random() < .5); s['extra'] = bool(rng.random() < .4); s['scalarvar'] = bool(rng.random() < .3)
            s['tname'] = str(rng.choice(['time', 'valid_time', 't'])); s['tunits'] = bool(rng.random() < .3); s['packed'] = bool(rng.random() < .25)
            if s['packed']: s['base'] = 0
            if not s['packed'] and rng.random() < .4: s['dtypein'] = str(rng.choice(['float32', 'int32', 'int16' if nt * int(np.prod(xs)) * nv < 30000 else 'int32'])); s['base'] = 0
        else:
            s['splits'] = [1] * nt; s['cplx'] = [0] * nt; s['shuffle'] = bool(rng.random() < .3); s['key'] = str(rng.choice(['data', 'u']))
            if rng.random() < .4: s['dtypein'] = str(rng.choice(['float32', 'int32'])); s['base'] = 0
        if kind != '1':
            if rng.random() < .4: s['chunks'] = int(rng.integers(2, 4))
            if rng.random() < .25: s['small'] = True
        scens.append(s); ranks.append(n_r)
rd0 = len(scens)
for k in range(tpick(12, 60)):
    ext = str(rng.choice(['npy', 'nc', 'mat', 'NPY']))
    s = dict(mod='ops_read', op='rdata', shape=[int(rng.integers(1, 5)) for _ in range(int(rng.integers(1, 4)))], ext=ext, dtype=str(rng.choice(['float64', 'float32', 'int32'])))
    if rng.random() < .5: s['format'] = str(rng.choice([ext.lower(), '.' + ext.lower(), ext.upper()]))
    scens.append(s); ranks.append(0)
outs = execute(c, scens, ranks)
recs = []
for i in need(c, scens, outs, ranks):
    s, o = scens[i], outs[i]
    if i >= rd0:
        o = o[0]; n = int(np.prod(s['shape']))
        r = dict(id=i, P=1, nt=1, xshape=[], g=s['shape'], a=1, ctime=[False], rnt=1, rx=[], rnx=1, isreal=True, dict=[], parts=[[[0, 1, [1] + o['part'][0], o['part'][1], o['part'][2]]]])
        if o['w'] and o['w'] != [2 * x for x in o['part'][1]]: c.violation(None, '%s: second variable of the file' % brief(s), s)
        recs.append(r); continue
    flat = s['kind'] != '1'
    g = [int(np.prod(s['xshape'])), s['nv']] if flat else list(s['xshape']) + [s['nv']]
    if any((x['nt'], x['xshape'], x['axis'], x['isreal'], x['dict']) != (o[0]['nt'], o[0]['xshape'], o[0]['axis'], o[0]['isreal'], o[0]['dict']) for x in o):
        c.violation(None, '%s: ranks disagree on the record' % brief(s), s)
    ct = []
    for n, cp in zip(s['splits'], s['cplx']): ct += [cp == 1] * n if cp != 3 else [False] * (n - 1) + [True]
    recs.append(dict(id=i, P=max(ranks[i], 1), nt=s['nt'], xshape=s['xshape'], g=g, a=1 if flat else o[0]['axis'] + 1, ctime=ct, rnt=o[0]['nt'], rx=o[0]['xshape'], rnx=o[0]['nx'],
                     isreal=o[0]['isreal'], dict=o[0]['dict'], parts=[[x['req'][q] for x in o] for q in range(len(s['req']))], cost=s['nt'] * int(np.prod(g)) * len(s['req'])))
    c.sample(brief(s))
c.judge('T_Reader', recs, lambda r: '%s (%s ranks)' % (brief(scens[r['id']]), ranks[r['id']] or 'serial'), chunks=5)
models.join()
c.finish()
