"""Scenario generator for batch SPOD fits (C07, C08)."""
import numpy as np
from spodrec import gen, mixed, rescale, reweigh, zeroed


def scenarios(rng, count, want):
    scens, ranks = [], []
    means = ['longtime', 'blockwise', 'zero', 'Longtime']
    shapes = [[3], [2, 2], [1], [2, 3], [5], [4], [2], [3, 1], [2, 1, 2], [6]]
    for k in range(count):
        kw = {}
        kw['mean_type'] = means[int(rng.integers(0, 4))]
        if rng.random() < .25: kw['normalize_data'] = True
        if rng.random() < .2: kw['fullspectrum'] = True
        if rng.random() < .2: kw['dtype'] = 'single'
        nv = int(rng.choice([1, 1, 2, 3]))
        xs = shapes[int(rng.integers(0, len(shapes)))]
        if int(np.prod(xs)) * nv > 12: nv = 1
        if rng.random() < .25 and max(xs) >= nv: kw['normalize_weights'] = True
        if rng.random() < .4: kw['n_modes_save'] = int(rng.integers(1, 6))
        n = int(rng.choice([4, 4, 5, 6, 7, 8, 10]))
        ovl = int(rng.choice([0, 0, 50, 25, 60, 33]))
        stride = n - -(-n * ovl // 100)
        nb = int(rng.integers(2, 6))
        if k % 12 == 3: nb = int(rng.integers(7, 14 if k % 36 == 3 else 9)); n = 4; ovl = int(rng.choice([0, 50])); xs = [2 if k % 36 == 3 else 8]; nv = 1; kw.pop('n_modes_save', None); stride = n - -(-n * ovl // 100); kw.pop('normalize_weights', None)
        nt = n + (nb - 1) * stride + int(rng.integers(0, stride))
        cplx = rng.random() < .3
        if kw.get('normalize_weights') and (cplx or kw['mean_type'] == 'zero') and rng.random() < .5: cplx = False
        s = gen(rng, cplx=cplx, nt=nt, n=n, ovl=ovl, xshape=xs, nv=nv, **kw)
        if rng.random() < .5: s['weights'] = zeroed(rng, rng.integers(1, 4, size=int(np.prod(xs)) * nv).tolist())
        if rng.random() < .3:
            k1 = int(rng.integers(1, nt)); s['splits'] = [k1, nt - k1]
        if rng.random() < .3: s['vaxis'] = True
        if rng.random() < .2: s['layout'] = 'F'
        if rng.random() < .15 and not cplx: s['dtypein'] = 'int64'
        n_r = int(rng.choice([0, 0, 0, 1, 2, 3]))
        if n_r and rng.random() < 0.35 and not cplx:
            s['kind'] = 'nc'
            if nt >= 9:
                s['params']['savefreq_disk'] = False
                s['params']['savefreq_disk2'] = True
                s.setdefault('splits', [nt]); s.pop('dtypein', None)
                if not s.get('splits'): s['splits'] = [nt]
            else: s['kind'] = 'array'
        s = reweigh(rng, rescale(rng, s))
        scens.append(mixed(rng, s) if rng.random() < .5 else s); ranks.append(n_r)
    # records with repeated eigenvalues: block b carries one signal at point b and at a common set of points
    for k in range(max(4, count // 9)):
        nb = int(rng.integers(3, 7)); n = int(rng.choice([4, 5, 6])); cplx = k % 2 == 1
        nc = int(rng.integers(0, 3)); P = nb + nc
        sig = rng.integers(1, 4, size=n) * np.where(rng.random(n) < .5, 1, -1) + (1j * rng.integers(-2, 3, size=n) if cplx else 0)
        d = np.zeros((nb * n, P), dtype=complex)
        for b in range(nb):
            ph = 1j ** int(rng.integers(0, 4)) if cplx else 1
            d[b * n:(b + 1) * n, b] = sig * ph
            for q in range(nc): d[b * n:(b + 1) * n, nb + q] = sig * ph
        d = d[:, rng.permutation(P)]
        s = gen(rng, cplx=cplx, nt=nb * n, n=n, ovl=0, xshape=[P], nv=1, mean_type=['zero', 'blockwise'][k // 2 % 2])
        s['data'] = (np.stack([d.real, d.imag], -1) if cplx else d.real).astype(int).tolist()
        scens.append(s); ranks.append(int(rng.choice([0, 0, 2])))
    return scens, ranks
