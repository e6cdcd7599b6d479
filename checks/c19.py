import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C19')
models = threading.Thread(target=lambda: c.model('Config', workers=3, timeout=800)); models.start()
rng = np.random.default_rng(SEED + 1900)
P = lambda p: rng.random() < p
scens, ranks, cfgs = [], [], []
OFF = ['block', 'overlap', 'short', 'mean', 'weights', 'shape', 'shape', 'both', 'serial2', 'array2', 'flat', 'files', 'missing', 'novars', 'nonfinite', 'shortfiles']
for k in range(tpick(330, 3000)):
    off = []
    if not P(.3): off = [OFF[k % len(OFF)]] + ([OFF[int(rng.integers(0, len(OFF)))]] if P(.15) else [])
    has = lambda x: x in off
    n_r = int(rng.choice([0, 0, 0, 2, 3])) if not (has('flat') or has('missing') or has('novars') or has('nonfinite') or has('shortfiles')) else int(rng.choice([2, 3]))
    if has('serial2'): n_r = 0
    kind = 'array'
    if n_r and P(.35): kind = str(rng.choice(['nc', 'nc', 'mat']))
    if has('flat') or has('missing'): kind = str(rng.choice(['nc', 'mat']))
    if has('novars') or has('shortfiles') or (has('files') and n_r): kind = 'nc'
    if has('files') and not n_r: kind = str(rng.choice(['nc', 'mat']))
    if has('nonfinite'): kind = 'mat'
    if has('array2'):
        kind = 'array'
        if n_r == 0 and not has('serial2'): n_r = 2
    st = kind == 'array' and P(.25) and not has('array2')
    n = int(rng.choice([4, 4, 5, 6, 8])) if not has('block') else int(rng.choice([1, 2, 3, 3]))
    while True:
        ovl = int(rng.choice([0, 0, 25, 50, 50, 75, 80])) if not has('overlap') else int(rng.choice([99, 100, 90, 76, 120, 101]))
        o = -(-n * ovl // 100)
        if o <= n - 1 or has('overlap') or has('block'): break
    stride = max(n - o, 1)
    nt = n + stride * int(rng.integers(1, 4)) + int(rng.integers(0, stride))
    if P(.3): nt = n + stride                         # just two blocks
    if has('short'): nt = n + stride - 1 - (int(rng.integers(0, n)) if P(.4) else 0)
    nt = max(nt, 1)
    if kind == 'nc': nt = max(nt, 9) if not has('shortfiles') and not has('short') else nt
    if has('shortfiles'): nt = int(rng.integers(max(n + stride, 1), 9)) if n + stride < 9 else nt
    xs = [[4], [6], [2, 3], [4, 2], [2, 2, 3]][int(rng.integers(0, 5))]
    if kind == 'mat': xs = [[2, 3, 2], [2, 2, 3], [3, 2, 2]][int(rng.integers(0, 3))]
    nv = int(rng.choice([1, 1, 2])); N = int(np.prod(xs)) * nv
    s = dict(mod='ops_misc', op='config', xshape=xs, nv=nv, kind=kind, data=rng.integers(-5, 6, size=(nt, N)).tolist())
    if kind != 'array': s['splits'] = [nt]
    p = dict(n_dft=n, overlap=ovl, time_step=1.0)
    s['params'] = p
    mt = str(rng.choice(['longtime', 'blockwise', 'zero', 'LongTime', 'ZERO']))
    if has('mean'): mt = str(rng.choice(['mean', 'longtim', 'block', 'none', '', 'long-time']))
    if has('mean') or P(.8): p['mean_type'] = mt
    else: mt = 'longtime'
    if st: s['cls'] = 'str'
    files = kind != 'array'
    disk = not files; disk2 = False
    if files and P(.6): disk2 = True
    if files or P(.5): p['savefreq_disk'] = disk
    if has('flat'): p['savefreq_disk'] = disk = True; disk2 = False
    if has('both'): disk2 = True; p['savefreq_disk'] = disk = True
    if has('serial2'): disk2 = True; p['savefreq_disk'] = disk = False
    if has('array2'): disk2 = True; p['savefreq_disk'] = disk = False
    if not has('array2') and not files and P(.15) and not disk2: p['savefreq_disk'] = disk = False
    if disk2 or P(.3): p['savefreq_disk2'] = disk2
    if P(.3): p['n_modes_save'] = int(rng.integers(1, 5))
    if P(.2): p['savefft'] = True
    size = N; wc = N
    if has('weights'):
        wc = int(rng.choice([N - 1, N + 1, N * 2, 1, N // nv if nv > 1 else N + 2, N + xs[0]])); wc = wc if wc != N else N + 1
        s['wcount'] = wc
    elif P(.5): s['weights'] = zeroed(rng, rng.integers(1, 5, size=N).tolist())
    diff = False
    if has('shape') and nt >= 2 and kind != 'mat':
        q = int(rng.integers(1, nt)); s['splits'] = [q, nt - q]; diff = True
        s['diffshape'] = str(rng.choice(['more', 'less', 'one', 'onelast', 'first', 'vars'] if kind == 'array' else ['more', 'less']))
        if P(.3): s['diffwhich'] = 0
    if has('shape') and kind == 'mat' and nt >= 2: s['diffshape'] = 'more'; diff = True
    if not has('shape') and kind != 'mat' and P(.3) and nt >= 2: q = int(rng.integers(1, nt)); s['splits'] = [q, nt - q]
    if has('shape') and kind == 'array' and s.get('diffshape') == 'less' and (len(xs) == 1 and xs[0] < 2 or len(xs) > 1 and xs[0] == xs[1]): s['diffshape'] = 'more'
    if has('missing') and files: s['missing'] = int(rng.integers(1, (len(s['splits']) if kind == 'nc' else nt) + 1))
    if has('novars') and kind == 'nc': s['novars'] = True
    if has('nonfinite') and kind == 'mat': s['nonfinite'] = str(rng.choice(['nan', 'inf', '-inf']))
    if kind == 'mat' and diff and s.get('missing'): s.pop('missing')
    if s.get('missing') and s.get('diffshape'): s.pop('diffshape'); diff = False
    if s.get('missing') and s.get('nonfinite'): s.pop('nonfinite')
    if files and n_r == 0:                      # written by the harness, read without a communicator
        for q in ('missing', 'nonfinite', 'diffshape'): s.pop(q, None)
        diff = False
    if files and s.get('cls'): s.pop('cls')
    cfgs.append(dict(n=n, ovl=ovl, nt=nt, mean=mt.lower(), wcount=wc, size=size, diff=diff, disk=p.get('savefreq_disk', True), disk2=p.get('savefreq_disk2', False), comm=n_r > 0,
                     files=files, nc=kind == 'nc', novars=bool(s.get('novars')), missing=bool(s.get('missing')), nonfinite=bool(s.get('nonfinite')), streaming=st))
    scens.append(s); ranks.append(n_r)
# configuration files
nf = tpick(60, 600)
VAL = [0, 1, -3, 2.5, 1e-3, True, False, None, 'longtime', 'a b', '', 'x: y', [1, 2], ['a'], '8', '1e5', 'yes', 'null']
for k in range(nf):
    keys = ['time_step', 'n_space_dims', 'n_variables', 'n_dft'] + [q for q in ('extra', 'n_modes_save', 'overlap') if P(.2)]
    rng.shuffle(keys)
    opt = [str(x) for x in rng.permutation(['overlap_', 'mean_type', 'normalize_weights', 'conf_level', 'reuse_blocks', 'savefft', 'dtype', 'savedir', 'k1', 'k2'])[:int(rng.integers(0, 8))]]
    val = {q: VAL[int(rng.integers(0, len(VAL)))] for q in keys + opt}
    def sect(ks):
        t, i = '', 0
        while i < len(ks):
            w = 2 if P(.15) and i + 1 < len(ks) else 1
            for j, q in enumerate(ks[i:i + w]): t += ('  - ' if j == 0 else '    ') + q + ' ' * int(rng.integers(0, 3)) + ': ' + json.dumps(val[q]) + '\n'
            i += w
        return t
    A = 'required:\n' + sect(keys); B = ('optional:\n' + sect(opt)) if (opt or P(.5)) else ''
    txt = (A + '\n' + B) if P(.7) else (B + '# comment\n' + A)
    scens.append(dict(mod='ops_misc', op='cfgfile', text=txt, argv=bool(P(.3)))); ranks.append(0); cfgs.append([[q, json.dumps(v)] for q, v in val.items()])
outs = execute(c, scens, ranks, split_jobs=2)
recs = []
for i in need(c, scens, outs, ranks):
    o = outs[i]
    if scens[i]['op'] == 'cfgfile': recs.append(dict(id=i, kind='file', got=o[0]['got'], want=cfgs[i]))
    else: recs.append(dict(id=i, kind='fit', c=cfgs[i], outs=[x['out'] for x in o], base=[os.path.basename(f) for f in o[0]['files']], nfiles=len(o[0]['files']), err=[x['err'] for x in o]))
    c.sample(brief(scens[i]) if 'text' not in scens[i] else scens[i]['text'])
c.judge('T_Config', recs, lambda r: '%s (%s ranks) %s' % ((json.dumps(r['c']) + ' ' + brief(scens[r['id']])) if r['kind'] == 'fit' else scens[r['id']]['text'], ranks[r['id']] or 'serial', r.get('err')), chunks=3)
models.join()
c.finish(dict(accepted=sum(r['kind'] == 'fit' and all(x == 'ok' for x in r['outs']) for r in recs), refused=sum(r['kind'] == 'fit' and all(x == 'raised' for x in r['outs']) for r in recs)))
