import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C01')
rng = np.random.default_rng(SEED + 1)
models = threading.Thread(target=lambda: c.model('Grid', tpick(None, 'Grid_t.cfg'), workers=4)); models.start()
scens, ranks = [], []
for n_r in tpick((0, 1, 2, 3, 4, 5, 7, 9), (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11)):
    for k in range(tpick(42, 220)):
        fn = ['distribute', 'distribute_data', 'distribute_dimension'][k % 3]
        nd = int(rng.integers(1, 5))
        shape = [int(rng.choice([1, 1, 2, 3, 4, 5, 7, 9, 11])) for _ in range(nd)]
        if k % 4 == 1: shape[int(rng.integers(0, nd))] = max(max(shape), int(rng.integers(1, 17 if n_r < 7 else 40)))
        if k % 3 == 1 and nd > 1 and rng.random() < .5: shape[int(rng.integers(0, nd))] = max(shape)     # ties
        if fn == 'distribute_data': shape = [int(rng.integers(1, 13))] + shape
        while int(np.prod(shape)) > 400: shape[int(np.argmax(shape[1:])) + (1 if len(shape) > 1 else 0)] -= 1
        s = dict(mod='ops_par', op='dist', fn=fn, shape=shape, dtype=str(rng.choice(['float64', 'float32', 'int32', 'complex128'])), order=str(rng.choice(['C', 'F'])),
                 layout=str(rng.choice(['', '', 'neg', 'step', 'memmap'])), xr=bool(rng.random() < .15))
        if fn == 'distribute_dimension':
            s['axis'] = int(rng.integers(0, len(shape)))
        scens.append(s); ranks.append(n_r)
outs = execute(c, scens, ranks)
recs = []
for i in need(c, scens, outs, ranks):
    s, o = scens[i], outs[i]
    axes = {x['axis'] for x in o}
    if len(axes) > 1: c.violation(None, '%s (%d ranks): ranks distribute different axes %s' % (brief(s), ranks[i], axes), s); continue
    ax = o[0]['axis']
    oth = []
    for j in range(len(o[0]['others'])):
        # an empty slab has no position of its own: use the running end
        row, end = [], 0
        for x in o:
            y = x['others'][j]
            if y is None: y = [end, end]
            row.append(y); end = y[1]
        oth.append(row)
    recs.append(dict(id=i, shape=s['shape'], skip=1 if s['fn'] == 'distribute_data' else 0, axis=ax, want=s.get('axis', -1),
                     gshape=o[0]['gshape'], parts=[[x['shape'], x['tags']] for x in o], others=oth, axes=o[0]['axes']))
    if any(x['gshape'] != o[0]['gshape'] for x in o): c.violation(None, '%s: ranks report different global shapes' % brief(s), s)
    c.sample(dict(fn=s['fn'], shape=s['shape'], ranks=ranks[i]))
c.judge('T_Grid', recs, lambda r: '%s (%s ranks)' % (brief(scens[r['id']]), ranks[r['id']] or 'serial'), chunks=5)
models.join()
c.finish()
