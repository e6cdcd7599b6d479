import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
from spodgen import scenarios
c = Check('C07')
models = threading.Thread(target=lambda: c.model('SpodDesign', tpick(None, 'SpodDesign_t.cfg'), workers=tpick(2, 4)))
models.start()
scens, ranks = scenarios(np.random.default_rng(SEED), tpick(44, 260), want='eig')
outs = execute(c, scens, ranks)
recs = []
for i in need(c, scens, outs, ranks):
    o = outs[i][0]
    r = dict(record(scens[i], o, want='eig'), id=i); recs.append(r)
    if any(x['attr_eigs'] != o['file_eigs'] for x in outs[i]):
        c.violation(None, '%s: eigs attribute differs from eigs_freq.npz' % brief(scens[i]), scens[i])
    c.sample(brief(scens[i]))
c.judge('T_Spod', recs, lambda r: '%s (%s ranks)' % (brief(scens[r['id']]), ranks[r['id']] or 'serial'), chunks=6)
models.join()
c.assumptions += ['integer records (-2..3), block lengths 4..10, at most 12 points: eigenvalue sums and second moments are compared in fixed point (about 1%)']
c.finish()
