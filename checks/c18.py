import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C18')
models = threading.Thread(target=lambda: c.model('Seq', tpick(None, 'Seq_t.cfg'), workers=3, timeout=800)); models.start()
rng = np.random.default_rng(SEED + 1800)
scens = []
for k in range(tpick(160, 1500)):
    ni, no, fh, nf = int(rng.integers(1, 6)), int(rng.choice([1, 1, 2, 3, 4, 5])), int(rng.choice([1, 1, 2, 3])), int(rng.integers(1, 5))
    nt = ni + int(rng.choice([0, 1, 2, 3, 5, 8, 13])) if rng.random() < .6 else ni + no + fh - 1 + int(rng.integers(0, 12))
    if k % 20 == 7: nt += int(rng.integers(20, 66))
    cplx = bool(rng.random() < .5)
    s = dict(mod='ops_misc', op='seq', nf=nf, nt=nt, ni=ni, no=no, fh=fh, cplx=cplx, idx=int(rng.choice([0, 0, 1, 3])), layout=rng.choice([None, 'F']), kw=bool(rng.random() < .5), partial=bool(rng.random() < .4), late=bool(rng.random() < .25), train=bool(rng.random() < .3))
    if s['layout'] is not None: s['layout'] = str(s['layout'])
    scens.append(s)
ranks = [0] * len(scens)
outs = execute(c, scens, ranks)
recs = []
for i in need(c, scens, outs, ranks):
    recs.append(dict(outs[i][0], id=i)); c.sample(json.dumps(scens[i]))
c.judge('T_Seq', recs, lambda r: json.dumps(scens[r['id']])[:600], chunks=4)
models.join()
c.finish()
