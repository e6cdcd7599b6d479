"""Projection and reconstruction as methods of analysis objects: histories of Wrap."""
import os, shutil
import numpy as np
from ops_spod import arr, make, source, resdir
from proj import *


def close(x, y, tol=1e-12):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape or not (np.isfinite(x).all() and np.isfinite(y).all()): return False
    sc = max(np.abs(x).max(initial=0), np.abs(y).max(initial=0))
    return bool(sc == 0 or np.abs(x - y).max(initial=0) <= tol * sc)


def wrap(s, comm, sd):
    """s: objs (fit scenarios), data (records to project), bands (keywords), events [kind, object, results of, band, data, times, without a directory]"""
    import pyspod.spod.utils as us, pyspod.pod.utils as pu
    rank = comm.rank if comm is not None else 0
    bar = (lambda: None) if comm is None else comm.Barrier
    pod = s['kind'] == 'pod'
    mod = pu if pod else us
    os_, paths = [], []
    for i, f in enumerate(s['objs']):
        d0 = os.path.join(sd, 'o%d' % i)
        if rank == 0: os.makedirs(d0, exist_ok=True)
        bar()
        o, _, _ = make(dict(f, cls='pod' if pod else s['kind']), comm, d0)
        d, vs = source(f, comm, d0)
        o.fit(d)
        bar(); os_.append(o); paths.append(os.path.realpath(resdir(o)))
    proj = []                    # per coef event: reference files by the functions
    out = []
    for e, ev in enumerate(s['events']):
        a, o, r, b, q, t, own = ev
        kw = {} if pod else s['bands'][b - 1]
        r0 = dict(a=a, o=o, own=own, r=r, b=1 if pod else b, err=False, dr=0, db=0, same=[], times=True)
        try:
            if a == 'coef':
                f = s['objs'][r - 1]
                d = arr(dict(f, data=s['data'][q]))
                fr, cr = mod.compute_coeffs_op(d.copy(), paths[r - 1], savedir='ref%d' % e, comm=comm, **kw)
                bar()
                fc, cd = os_[o - 1].compute_coeffs_op(d, None if own else paths[r - 1], **kw)
                bar()
                proj.append((e + 1, r, 1 if pod else b, cr, os.path.dirname(os.path.realpath(cr))))
            else:
                cds = [p for p in proj if p[1] == r and p[2] == (1 if pod else b)]
                fr_, cd = os_[o - 1].compute_reconstruction(coeffs_dir=None if own else cds[-1][4], time_idx=t)
                bar()
                R = np.load(fr_) if rank == 0 else None
                bar()
            if rank == 0:
                cdr = os.path.realpath(cd)
                for p in proj:
                    if p[4] == cdr: r0['dr'], r0['db'] = p[1], p[2]
            if a == 'coef':
                if rank == 0:
                    ld = lambda d: [np.load(os.path.join(d, x)) for x in ('coeffs.npy', 'modes_r.npy', 'ltm.npy')]
                    got = ld(cd) if os.path.realpath(os.path.dirname(fc)) == os.path.realpath(cd) else []
                    for p in proj:
                        if len(got) == 3 and all(close(x, y) for x, y in zip(got, ld(p[3]))): r0['same'].append(p[0])
            else:
                for p in proj:
                    try: f2, _ = mod.compute_reconstruction(p[3], t, comm=comm, filename='again')
                    except Exception:
                        if comm is not None: raise
                        continue
                    bar()
                    if rank == 0 and close(R, np.load(f2)): r0['same'].append(p[0])
                    bar()
                if rank == 0: r0['times'] = bool(R.shape[0] == (len(t) if isinstance(t, list) else np.load(f2).shape[0]) or not r0['same'])
        except Exception as x:
            if comm is not None: raise
            r0['err'] = True; r0['what'] = '%s: %s' % (type(x).__name__, x)
            out.append(r0); break
        out.append(r0); bar()
    bar()
    if rank == 0: shutil.rmtree(sd, ignore_errors=True)
    return dict(recs=out) if rank == 0 else {}


def scenario(rng, kind):
    """random history; kind std, stream or pod"""
    from spodrec import gen
    xs = [[6], [4, 2], [3, 3], [5]][int(rng.integers(0, 4))]; nv = int(rng.choice([1, 1, 2])); N = int(np.prod(xs)) * nv
    objs = []
    for i in range(2):
        if kind == 'pod':
            nt = int(rng.integers(6, 12))
            f = dict(data=rng.integers(-9, 10, size=(nt, N)).tolist(), xshape=xs, nv=nv, params=dict(time_step=1.0, n_modes_save=2))
        else:
            n = 4; nt = n * int(rng.integers(2, 4)) + int(rng.integers(0, n))
            f = gen(rng, cplx=False, nt=nt, n=n, ovl=0, xshape=xs, nv=nv, lo=-9, hi=9, mean_type='longtime')
            f['params']['time_step'] = 1.0; f['params']['n_modes_save'] = 2
        objs.append(f)
    nt = 9
    data = [rng.integers(-9, 10, size=(nt, N)).tolist() for _ in range(2)]
    bands = [dict(freq_idx=[0, 1]), dict(freq_idx=[1, 2])] if False else [dict(T_lb=1.7, T_ub=2.5), dict(T_lb=3.5, T_ub=4.5)]
    ev, have = [], set()
    L = int(rng.integers(3, 7)); called = set(); last = {}
    while len(ev) < L:
        b = 1 if kind == 'pod' else int(rng.integers(1, 3)); o = int(rng.integers(1, 3)); r = int(rng.choice([o, o, 3 - o]))
        if o not in called or rng.random() < .45:
            ev.append(['coef', o, r, b, int(rng.integers(0, 2)), None, bool(r == o and rng.random() < .4)]); have.add((r, b)); called.add(o); last[o] = (r, b)
        else:
            own = bool(rng.random() < .3)
            r, b = last[o] if own else list(sorted(have))[int(rng.integers(0, len(have)))]
            t = ['all', 'half', [int(x) for x in rng.integers(0, nt, size=3)]][int(rng.integers(0, 3))]
            ev.append(['rec', o, r, b, 0, t, own]); last[o] = (r, b)
    # the last call reconstructs a directory that is not the latest, where there is one
    if len(have) > 1:
        r, b = sorted(have - {(ev[-1][2], ev[-1][3])})[0]
        ev.append(['rec', sorted(called)[int(rng.integers(0, len(called)))], r, b, 0, 'all', False])
    return dict(mod='ops_wrap', op='wrap', kind=kind, objs=objs, data=data, bands=bands, events=ev)


def check(c, rng, n, kinds):
    """runs n histories and judges them with T_Wrap"""
    from common import execute, need
    scens = [scenario(rng, kinds[i % len(kinds)]) for i in range(n)]
    ranks = [int(rng.choice([0, 0, 2, 3])) for _ in range(n)]
    outs = execute(c, scens, ranks, tag='w')
    recs = []
    for i in need(c, scens, outs, ranks):
        for e, r in enumerate(outs[i][0]['recs']): recs.append(dict(r, id=len(recs), hist=i, e=e))
        c.sample('%s %s (%s)' % (scens[i]['kind'], scens[i]['events'], ranks[i] or 'serial'))
    say = lambda r: 'methods of %s object(s), call %d of %s (%s ranks)%s' % (scens[r['hist']]['kind'], r['e'] + 1, scens[r['hist']]['events'], ranks[r['hist']] or 'serial', ' ' + r['what'] if r.get('what') else '')
    c.judge('T_Wrap', recs, say)
    return len(recs)
