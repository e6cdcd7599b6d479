import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
import math
c = Check('C24')
models = threading.Thread(target=lambda: c.model('Plots', tpick(None, 'Plots_t.cfg'), workers=3, timeout=800)); models.start()
rng = np.random.default_rng(SEED + 2400)
P = lambda p: rng.random() < p
R = lambda a, b: int(rng.integers(a, b))
KINDS = ['modes2'] * 9 + ['modes3'] * 8 + ['mtrace'] * 4 + ['report'] * 3 + ['dtrace'] * 4 + ['data2'] * 4 + ['video'] * 3 + ['eigs', 'eigf', 'eigp', 'eigf', 'eigp', 'coeffs', 'coeffs', 'series', 'hist', 'sub2', 'spec', 'spec']
def axis(n, lo=-40, hi=40): return sorted(int(x) for x in rng.permutation(np.arange(lo, hi))[:n])
def sub(n, k=None): return [int(x) for x in rng.permutation(n)[:k or R(1, n + 1)]]
def near(ax):
    """a request that has one nearest entry (2 * position to avoid ties)"""
    return int(ax[R(0, len(ax))])
scens = []
nvid = 0
for k in range(tpick(234, 1600)):
    w = KINDS[k % len(KINDS)]
    s = dict(mod='ops_plot', op='plot', what=w, seed=k + 1000 * SEED, save=bool(P(.6)))
    if P(.3): s['title'] = 'picture of it'
    if w in ('modes2', 'modes3', 'mtrace'):
        d = 2 if w == 'modes2' else 3 if w == 'modes3' else R(1, 4)
        nv, nm, nf = R(1, 4), R(1, 4), R(1 + (w == 'mtrace'), 5)
        sh = [R(2, 5) for _ in range(d)]
        if w == 'mtrace': sh = [R(2, 5) for _ in range(d)]
        if P(.3) and d > 1: sh = [sh[0]] * d
        s.update(shape=[nf] + sh + [nv, nm], vars=sub(nv), modes=sub(nm) + ([nm + 2] if P(.15) and w == 'modes2' else []), freq=axis(nf, -40 if w == 'mtrace' else 0 if P(.7) else -30, 40), cls=bool(P(.4)), single=bool(P(.3)), neg=bool(P(.5)))
        s['freq_req'] = near(s['freq']) + (R(-3, 4) if P(.5) else 0)
        if w != 'mtrace': s.update(imaginary=bool(P(.4)), plot_max=bool(P(.4)), fftshift=bool(P(.3)), equal_axes=bool(P(.2)))
        if w == 'modes2':
            rows = P(.5); L = (sh[1], sh[0]) if rows else (sh[0], sh[1])
            s['dflt'] = bool(P(.2))
            s['shift180'] = bool(P(.25)) and not s['dflt']
            s['cdtype'] = 'int64' if P(.3) else 'float64'
            if s['dflt']: X = [list(range(sh[0])), list(range(sh[1]))]
            else: X = [axis(L[0], 0 if s['shift180'] else -40, 360 if s['shift180'] else 40), axis(L[1])]
            s['x1'], s['x2'] = X
            for q in (1, 2):
                n = len(X[q - 1]); a, b = 0, n
                if P(.3) and not s['cls'] and n > 2: a = R(0, n - 1); b = R(a + 2, n + 1); s['limits_x%d' % q] = (a, b)
                s['win%d' % q] = [a, b]
        elif w == 'modes3':
            L = list(sh)
            if P(.4): L = [sh[i] for i in rng.permutation(3)]
            s['dflt'] = bool(P(.2))
            X = [list(range(n)) for n in sh] if s['dflt'] else [axis(n) for n in L]
            s['x1'], s['x2'], s['x3'] = X
            s['slice_dim'] = R(0, 3); s['slice_id'] = R(0, sh[s['slice_dim']]) if P(.7) else -1
        else:
            s['xs'] = [axis(n) for n in sh] if P(.7) else None
            s['x'] = s['xs']; s['xs'] = s['xs'] or [list(range(n)) for n in sh]
            s['coords'] = [[near(a) for a in s['xs']] for _ in range(R(1, 3))]
            s['labels'] = ['mode %d' % m for m in s['modes']]
            if s['freq_req'] == 0: s['freq_req'] = 1
            if d > 1 and P(.3): s['fftshift'] = True
    elif w == 'report':
        nv, nm, m = R(1, 3), R(1, 4), R(3, 14)
        sh = [R(2, 4), R(2, 4)]
        two = P(.4)
        fr = list(range(0, m + 1)) + (list(range(-m, 0)) if two else [])
        if P(.3): fr = [0] + sorted(set(int(x) for x in rng.integers(1, 3 * m, size=m)))
        if any(10 * abs(a - b) == abs(a) for a in fr for b in fr if a): fr = [0, 1, 2, 3, 4]
        n = len(fr) - 1
        while True:
            E = np.where(rng.random((n + 1, nm)) < .3, rng.integers(500, 900, (n + 1, nm)), rng.integers(1, 200, (n + 1, nm)))
            w_ = [E[1:][max(i - 5, 0):min(i + 5, n)] for i in range(n)]
            if all((2 * len(x) * E[i + 1] != 3 * x.sum(0)).all() for i, x in enumerate(w_)): break
        rows = P(.5); L = (sh[1], sh[0]) if rows else (sh[0], sh[1])
        s.update(shape=[n + 1] + sh + [nv, nm], vars=[0], modes=[0], eigs=E.tolist(), freq=fr, freq_req=0, cls=True, single=bool(P(.3)), neg=bool(P(.5)), save=True,
                 D=int(rng.choice([1, 3, 50, 2000, 9000, 90000])), unit='hours' if P(.8) else 'steps', shift180=bool(P(.3)), ceigs=bool(P(.2)), win1=[0, L[0]], win2=[0, L[1]])
        s['x1'], s['x2'] = axis(L[0], 0, 360), axis(L[1])
    elif w in ('dtrace', 'data2', 'video'):
        d = 2 if w != 'dtrace' else R(1, 4)
        nt, nv = R(4, 12), R(1, 4) if w != 'video' else R(2, 4); sh = [R(2, 5) for _ in range(d)]
        if P(.3) and w != 'video': sh = [sh[0]] * d
        s.update(shape=[nt] + sh + [nv], vars=sub(nv) if w != 'video' else sub(nv, R(2, nv + 1)), cls=bool(P(.4)), neg=bool(P(.5)))
        if nv == 1 and s['cls'] and P(.5): s['dropv'] = True
        a = R(0, nt - 1); b = R(a + 1, nt + 1)
        if w != 'data2': s['tlim'] = [a, b]
        if w == 'dtrace':
            s['xs'] = [axis(n) for n in sh] if P(.7) else None
            s['x'] = s['xs']; s['xs'] = s['xs'] or [list(range(n)) for n in sh]
            s['coords'] = [[near(q) for q in s['xs']] for _ in range(R(1, 3))]
        else:
            rows = P(.5) if w != 'video' else nvid & 2; L = (sh[1], sh[0]) if rows else (sh[0], sh[1])
            s['dflt'] = bool(P(.2)) and (w != 'video' or not rows)
            s['x1'], s['x2'] = [list(range(sh[0])), list(range(sh[1]))] if s['dflt'] else [axis(L[0]), axis(L[1])]
            s['cplx'] = bool(P(.2))
            if w == 'data2': s['times'] = sub(nt, R(1, 4))
            else: s['sampling'] = R(1, 4); s['save'] = True; s['tlim'] = [a, min(b, a + 5)]
    elif w in ('eigs', 'eigf', 'eigp'):
        nf, nm = R(2, 7), R(1, 6)
        s.update(eigs=[[R(1, 900) for _ in range(nm)] for _ in range(nf)], freq=axis(nf, 1 if P(.7) else 0, 40), cls=bool(P(.5)), cplx=bool(P(.3)))
    elif w == 'coeffs':
        n = R(1, 6); s.update(coeffs=[[R(-90, 90) for _ in range(R(3, 4))] for _ in range(n)], idx=sub(n)); s['labels'] = ['coeff %d' % i for i in s['idx']]
    elif w in ('series', 'hist'): s.update(a=[R(-90, 90) for _ in range(R(2, 9))], b=[R(-90, 90) for _ in range(R(2, 9))])
    elif w == 'sub2':
        n = [R(2, 5), R(2, 5)]; s.update(vals=[[[R(-90, 90) for _ in range(n[1])] for _ in range(n[0])] for _ in range(R(1, 4))])
        if P(.2): s['vals'] = [[[v[0][0]] * n[1] for _ in range(n[0])] for v in s['vals']]
    else:
        n = R(4, 11); s.update(u=[R(-4, 5) for _ in range(n)], save=False)
        s['cs'] = [int(round(1000 * math.cos(2 * math.pi * q / n))) for q in range(n)]; s['sn'] = [int(round(1000 * math.sin(2 * math.pi * q / n))) for q in range(n)]
    # ticks at some of the coordinates
    if w in ('modes2', 'modes3', 'data2', 'eigf', 'eigp') and P(.35) and not (s.get('cls') and w == 'data2'):
        for q, a in (('xticks', axis(R(1, 5), 1, 40)), ('yticks', axis(R(1, 5), 1, 40))):
            if P(.7): s[q] = a
    if w in ('eigs', 'eigf', 'eigp'): s.update(equal_axes=bool(P(.3)), show_axes=bool(P(.6)))
    if w in ('modes2', 'modes3', 'data2', 'video') and (P(.3) if w != 'video' else nvid & 1): s['coastlines'] = str(rng.choice(['regular', 'centred', 'Regular', 'CENTRED']))
    nvid += w == 'video'
    scens.append(s)
# what the code gets: defaults are left out
def call(s):
    q = dict(s)
    if s.get('dflt'):
        for z in ('x1', 'x2', 'x3'): q.pop(z, None)
    if s.get('slice_id') == -1: q.pop('slice_id')
    return q
outs = execute(c, [call(s) for s in scens], [0] * len(scens), width=7)
recs = []
for i in need(c, scens, outs, [0] * len(scens)):
    o = outs[i][0]
    rq = {k: v for k, v in scens[i].items() if k not in ('mod', 'op', 'seed', 'x', 'title')}
    rq.setdefault('xticks', []); rq.setdefault('yticks', []); rq['coast'] = scens[i].get('coastlines', '').lower(); rq.setdefault('imaginary', False); rq.setdefault('plot_max', False); rq.setdefault('fftshift', False); rq.setdefault('shift180', False)
    recs.append(dict(o, id=i, req=rq)); c.sample(brief(scens[i]))
def desc(r):
    s = scens[r['id']]
    return json.dumps({k: v for k, v in s.items() if k not in ('mod', 'op', 'coeffs', 'eigs', 'vals')})[:500]
c.judge('T_Plots', recs, desc, chunks=4)
models.join()
c.finish()
