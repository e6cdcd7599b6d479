"""Histories generated by TLC from Store.tla, replayed on the real code, judged by T_Store."""
from common import *
import ops_store as S
from ops_store import reldiff, attr_mismatch


def histories(c, num, seed, depth=160):
    per = -(-num // 4)
    hs, lock = [], threading.Lock()
    def one(k):
        r = run_tlc('Store', 'StoreGen.cfg', c.scratch, extra=('-simulate', 'num=%d' % per, '-depth', str(depth), '-seed', str(seed * 10 + k)), tag='gen%d' % k, timeout=500)
        if r['rc'] != 0: c.error('generation: TLC exit %s %s' % (r['rc'], r['out'][-800:]))
        with lock:
            for l in r['out'].splitlines():
                if 'HIST ' in l:
                    t = json.loads(l.strip())
                    hs.append(json.loads(t[5:]))
    pmap([lambda k=k: one(k) for k in range(4)], width=4)
    uniq = {json.dumps(h, sort_keys=True): h for h in hs}
    return [uniq[k] for k in sorted(uniq)][:num]


def modes_match(a, b):
    """stored modes a equal reference b up to one phase per mode (well separated modes of non-negligible energy only)"""
    if a['n'] != b['n'] or len(a['modes']) != len(b['modes']): return False
    e = np.array(b['eigs'][1]).reshape(b['eigs'][0])
    if len(a['modes']) == 1 and e.ndim == 1: e = e[None]
    e = np.abs(e); top = e.max() if e.size else 0
    for f, (x, y) in enumerate(zip(a['modes'], b['modes'])):
        if x[0] != y[0]: return False
        nm = x[0][-1]
        X = (np.array(x[1]) + 1j * np.array(x[2])).reshape(-1, nm); Y = (np.array(y[1]) + 1j * np.array(y[2])).reshape(-1, nm)
        for k in range(nm):
            if top == 0 or e[f][k] < 1e-6 * top: continue
            if min([abs(e[f][k] - e[f][j]) for j in range(e.shape[1]) if j != k] or [top]) < 1e-4 * top: continue
            u, v = X[:, k], Y[:, k]
            if not (np.isfinite(u).all() and np.isfinite(v).all()): return False
            p = np.vdot(u, v); p = p / abs(p) if abs(p) else 1
            if np.linalg.norm(u * p - v) > 1e-5 * np.linalg.norm(v): return False
    return True


def aspect_match(asp, a, b):
    if asp == 'm': return modes_match(a, b)
    if asp == 'e':
        if set(a) != set(b) or a.get('freq') != b.get('freq'): return False
        return all(reldiff(a[k], b[k]) < 1e-8 for k in ('eigs', 'cl', 'cu') if k in a)
    if asp in 'wl': return reldiff(a['x'], b['x']) < 1e-8
    return a == b


def run(c, which, num, seed, ranks_of):
    hs = histories(c, num, seed)
    if len(hs) < num // 2: c.error('only %d histories generated' % len(hs))
    rng = np.random.default_rng(seed)
    scens = [dict(mod='ops_store', op='replay', hist=h, seed=seed * 100 + i % 3) for i, h in enumerate(hs)]
    ranks = [int(rng.choice(ranks_of)) for _ in scens]
    # references: one fresh analysis per configuration and data set that occurs
    need_ref = {}
    def key(c_, d, sd): return json.dumps([{k: v for k, v in c_.items() if k not in ('mode', 'dir')}, d, sd], sort_keys=True)
    for s in scens:
        alld = sorted({e['d'] for e in s['hist'] if e['a'] == 'project'})
        for e in s['hist']:
            if e['a'] == 'fit':
                q = need_ref.setdefault(key(e['c'], e['d'], s['seed']), dict(mod='ops_store', op='ref', c=e['c'], d=e['d'], seed=s['seed'], proj=[]))
                q['proj'] = sorted(set(q['proj']) | set(alld))
    keys = sorted(need_ref); rscens = [need_ref[k] for k in keys]
    k1 = len(rscens)
    outs = execute(c, rscens + scens, [0] * k1 + ranks, width=6, split_jobs=2)
    refs = {}
    for k, s, o in zip(keys, rscens, outs):
        p = problem(o)
        if p: c.violation(None, 'fresh analysis %s on data %s: %s' % (json.dumps(s['c']), s['d'], p), s)
        else: refs[k] = o[0]
    recs, cache = [], {}
    for h, (s, n, o) in enumerate(zip(scens, ranks, outs[k1:])):
        if isinstance(o, dict):
            c.violation(None, 'history %s (%s ranks) %s' % (json.dumps(s['hist']), n, problem(o)), s); continue
        if any('error' in x and 'events' not in x for x in o):
            c.violation(None, 'history %s (%s ranks) %s' % (json.dumps(s['hist']), n, problem(o)), s); continue
        T = [x['table'] for x in o]
        fits = []
        c.sample(json.dumps(s['hist'])[:300])
        for k, e in enumerate(s['hist']):
            if any(k >= len(x['events']) for x in o): break
            ev = [x['events'][k] for x in o]
            if e['a'] == 'fit':
                rk = key(e['c'], e['d'], s['seed'])
                fits.append((k + 1, rk))
                if rk not in refs: break
            def ids(asp, sh, tab):
                if sh == 'any': return [i for i, _ in fits]
                r = []
                for i, rk in fits:
                    ck = (asp, sh, rk)
                    if ck not in cache:
                        ref = refs[rk]
                        if asp == 'a': cache[ck] = not attr_mismatch(tab[sh], ref['attrs'])
                        elif asp.startswith('proj'):
                            b = ref['proj'].get(asp[4:])
                            cache[ck] = b is not None and tab[sh]['cshape'] == b['cshape'] and reldiff(tab[sh]['rec'], b['rec']) < 1e-6
                        else:
                            q = ref['look'].get(asp)
                            cache[ck] = q == 'any' if q == 'any' or q is None else aspect_match(asp, tab[sh], ref['table'][q])
                    if cache[ck]: r.append(i)
                return r
            err = [x['error'] for x in ev if 'error' in x]
            rec = dict(hist=h, id=len(recs), k=k, a=e['a'], o=e['o'], err=bool(err), why=err[:1], loc=[], locs=[], objs=[], hasret=False, ret=[],
                       hasproj=False, proj=[], inputs=all(x.get('inputs', True) for x in ev), params=all(x.get('params', True) for x in ev), kept=all(x.get('coeffs_kept', True) for x in ev))
            if e['a'] == 'fit':
                cc = e['c']
                rec['loc'] = [cc['dir'], 'pod', min(cc['nm'] or 99, S.NT[e['d']])] if cc['cls'] == 'pod' else [cc['dir'], 'spod', 10 * cc['sub'] + (2 if e['d'] == 3 else 1)]
            if not err:
                for x in ev[0]['locs']:
                    ok = 'error' not in x
                    y = dict(loc=x['loc'], ok=ok)
                    for asp in 'mewlp': y[asp] = ids(asp, x[asp], T[0]) if ok else []
                    rec['locs'].append(y)
                for q, x in enumerate(ev[0]['objs']):
                    lists = [set(ids('a', r_['objs'][q]['a'], t)) for r_, t in zip(ev, T)]
                    rec['objs'].append(dict(o=x['o'], a=sorted(set.intersection(*lists))))
                if 'ret' in ev[0]:
                    rec['hasret'] = True; rec['ret'] = sorted(set.intersection(*[set(ids('m', x['ret'], t)) for x, t in zip(ev, T)]))
                if 'proj' in ev[0]:
                    rec['hasproj'] = True; rec['proj'] = sorted(set.intersection(*[set(ids('proj%s' % e['d'], x['proj'], t)) for x, t in zip(ev, T)]))
            recs.append(rec)
            if err: break
    def describe(r):
        s = scens[r['hist']]
        return 'history %s (%s ranks), after event %d %s' % (json.dumps(s['hist'][:r['k'] + 1]), ranks[r['hist']] or 'serial', r['k'] + 1, ' '.join(r['why']))
    c.judge('T_Store', recs, describe, cfg='T_Store.cfg' if which == 'files' else 'T_StoreIn.cfg', chunks=4)
    return scens, recs
