import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
c = Check('C22')
models = threading.Thread(target=lambda: c.model('Err', tpick(None, 'Err_t.cfg'), workers=3, timeout=800)); models.start()
rng = np.random.default_rng(SEED + 2200)
scens = []
for k in range(tpick(250, 3000)):
    nt = int(rng.integers(1, 7)); xs = [[4], [2, 2], [3, 2], [5], [1], [2, 1, 2], [4, 1]][int(rng.integers(0, 7))]
    n = int(np.prod(xs)); cplx = rng.random() < .3
    uns = not cplx and rng.random() < .12                             # unsigned integers cannot hold the differences
    mode = rng.random()
    mag = lambda: int(rng.integers(0, 10)) if mode > .15 else 0
    E, Em, R, Rm = [], [], [], []
    sig = lambda: int(rng.choice([-1, 1]))
    for t in range(nt):
        for p in range(n):
            m = mag()
            if mode > .9: m = 9 if p % 2 else -9; e = [m, 0]; m = 9      # errors that would cancel
            elif cplx and m and rng.random() < .5 and m % 5 == 0: e = [3 * m // 5 * sig(), 4 * m // 5 * sig()]
            elif cplx and rng.random() < .5: e = [0, m * sig()]
            else: e = [m * sig(), 0]
            q = int(rng.choice([1, 2, 3, 4, 5, 6]))
            if cplx and q == 5 and rng.random() < .6: r = [3 * sig(), 4 * sig()]
            elif cplx and rng.random() < .3: r = [0, q * sig()]
            else: r = [q * sig(), 0]
            if uns: r = [q, 0]; e = [m, 0] if e[0] > 0 or m > q else [-m, 0]
            E.append(e); Em.append(m); R.append(r); Rm.append(q)
    D = [[a[0] + b[0], a[1] + b[1]] for a, b in zip(E, R)]
    Ea = np.array(E).reshape(nt, n, 2); de = np.zeros_like(Ea); de[1:] = Ea[1:] - Ea[:-1]
    s = dict(mod='ops_misc', op='err', shape=[nt] + xs, cplx=cplx, data=D if cplx else [x[0] for x in D], ref=R if cplx else [x[0] for x in R],
             dt=float(rng.choice([1, .25, 4, .5])), seed=int(rng.integers(0, 9999)), layout=[None, None, 'F', 'T', 'S'][int(rng.integers(0, 5))])
    if cplx: s['data'] = np.array(s['data']).tolist()
    if rng.random() < .2: s['dtype'] = 'complex64' if cplx else str(rng.choice(['float32', 'int64', 'int32']))
    if uns: s['dtype'] = str(rng.choice(['uint8', 'uint16', 'uint64']))
    s['exp'] = dict(e=np.array(Em).reshape(nt, n).tolist(), rr=np.array(Rm).reshape(nt, n).tolist(), de2=(de ** 2).sum(-1).tolist())
    scens.append(s)
send = []
for s in scens:
    q = {k: v for k, v in s.items() if k != 'exp'}
    send.append(q)
ranks = [0] * len(send)
outs = execute(c, send, ranks)
recs = []
for i in need(c, send, outs, ranks):
    recs.append(dict(outs[i][0], id=i, **scens[i]['exp'])); c.sample(json.dumps(send[i])[:300])
c.judge('T_Err', recs, lambda r: json.dumps({k: v for k, v in send[r['id']].items()})[:600], chunks=4)
models.join()
c.finish()
