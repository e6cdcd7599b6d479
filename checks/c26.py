import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C26')
models = threading.Thread(target=lambda: c.model('Object', tpick(None, 'Object_t.cfg'), workers=1, timeout=1200)); models.start()
rng = np.random.default_rng(SEED + 2600)
scens, ranks = [], []
for k in range(tpick(30, 200)):
    n_r = int(rng.choice([0, 0, 2, 3] if k % 5 < 3 else [1, 2, 3])); nd = int(rng.choice([1, 2, 3, 3])); nv = int(rng.choice([1, 1, 2]))
    nc = k % 5 > 2; mat = k % 5 == 4
    if mat: nd = 3
    cplx_ok = not nc
    objs, same = [], bool(rng.random() < .35)          # same: records of one grid, weights given
    X0 = [int(x) for x in rng.integers(1, 5, size=nd)]
    for i in range(2):
        cls = ['std', 'std', 'str', 'pod'][int(rng.integers(0, 4))]
        if nc and cls == 'str': cls = 'std'
        P = dict(time_step=float(rng.choice([.5, 1, 2])), n_space_dims=nd, n_variables=nv)
        ov = 0
        if cls != 'pod':
            n = int(rng.choice([4, 5, 6])); pct = int(rng.choice([0, 50, 25])); ov = -(-n * pct // 100)
            P.update(n_dft=n, overlap=pct)
            if rng.random() < .3: P['fullspectrum'] = True
            if nc: P.update(savefreq_disk=False, savefreq_disk2=True)
        if rng.random() < .5 or cls == 'pod': P['n_modes_save'] = int(rng.integers(1, 6))
        if cls == 'pod' and rng.random() < .5: P['n_modes_save'] = int(rng.integers(15, 30))
        if rng.random() < .4: P['mean_type'] = 'blockwise' if cls == 'std' else 'longtime'
        if cls == 'str' and 'n_modes_save' in P: P['n_modes_save'] = 2
        if rng.random() < .5 and cls != 'pod': P['conf_level'] = float(rng.choice([.7, .9, .99]))
        if rng.random() < .35 and cls != 'str': P['normalize_weights'] = True
        objs.append(dict(cls=cls, params=P, ov=ov, xshape=[1] * nd, nv=nv))
        if same and rng.random() < .6: objs[-1]['w'] = rng.integers(1, 6, size=X0 + [nv]).tolist()
    pod = any(q['cls'] == 'pod' for q in objs)
    recs = []
    for j in range(3):
        xs = X0 if same else [int(x) for x in rng.integers(1, 5, size=nd)]; nt = int(rng.integers(18, 30)); N = int(np.prod(xs)) * nv
        cp = bool(cplx_ok and not pod and rng.random() < .35)
        data = rng.integers(-9, 10, size=(nt, N, 2) if cp else (nt, N)).tolist()
        f = dict(data=data, xshape=xs, nv=nv, cplx=cp, cut=[int(x) for x in sorted(rng.choice(nt + 1, size=2, replace=False))], vaxis=bool(rng.random() < .5))
        if rng.random() < .4 or nc: k1 = int(rng.integers(3, nt - 3)); f['splits'] = [k1, nt - k1]
        if nc: f['kind'] = 'mat' if mat else 'nc'
        if mat: f.pop('splits', None)
        recs.append(f)
    ev, fitted, called = [], {}, set()
    for _ in range(int(rng.integers(4, 8))):
        i = int(rng.integers(0, 2))
        proj = i in fitted and objs[i]['cls'] != 'str' and not recs[fitted[i]]['cplx'] and not nc
        if not proj or rng.random() < .5:
            j = int(rng.choice([x for x in range(3) if x != fitted.get(i)])); ev.append([i, 'fit', j]); fitted[i] = j; called.discard(i)
        elif i in called and rng.random() < .6: ev.append([i, 'rec', 0])
        else: ev.append([i, 'coef', 0]); called.add(i)
    scens.append(dict(mod='ops_obj', op='history', objs=objs, recs=recs, events=ev, shared=bool(k % 2))); ranks.append(n_r)
outs = execute(c, scens, ranks, tag='b')
recs = []
for i in need(c, scens, outs, ranks):
    for o in outs[i]:
        for r in o['recs']: recs.append(dict(r, id=len(recs), s=i))
    c.sample('%s (%s ranks)' % (scens[i]['events'], ranks[i] or 'serial'))
say = lambda r: '%s, records %s, call %d of %s, object %d, rank %s of %s %s' % ([(q['cls'], {k: v for k, v in q['params'].items()}) for q in scens[r['s']]['objs']],
    [(len(f['data']), f['xshape'], f['nv'], f.get('kind', 'array'), f['cplx']) for f in scens[r['s']]['recs']], r['e'] + 1, scens[r['s']]['events'], r['obj'], r.get('rank', 0), ranks[r['s']] or 'serial', r['err'])
c.judge('T_Object', recs, say, chunks=3)
models.join()
c.finish()
