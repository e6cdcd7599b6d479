"""Builds scenarios for SPOD fits and turns their observations into records of SpodRef."""
import math
import numpy as np
from proj import *


def gen(rng, cplx=False, nt=None, n=4, ovl=0, xshape=None, nv=1, lo=-2, hi=3, **params):
    xshape = xshape or [int(rng.integers(1, 5))]
    P = int(np.prod(xshape)) * nv
    nt = nt or int(rng.integers(2 * n, 4 * n))
    d = rng.integers(lo, hi + 1, size=(nt, P) + ((2,) if cplx else ()))
    # never a constant point or variable
    s = dict(mod='ops_spod', op='fit', data=d.tolist(), cplx=cplx, xshape=list(xshape), nv=nv,
             params=dict(time_step=1.0, n_dft=n, overlap=ovl, **params))
    return s


def zeroed(rng, w, p=.2):
    """weights with zeros (points left out), some of the time"""
    if len(w) < 2 or rng.random() >= p: return w
    k = int(rng.integers(0, len(w)))
    return [x if i == k or rng.random() < .6 else 0 for i, x in enumerate(w)]


def reweigh(rng, s, p=.3):
    """the same weights in other units (a power of four: its root is exact)"""
    if not s.get('weights') or s.get('wdtype') or s.get('wgain') or rng.random() >= p: return s
    s['wgain'] = 2.0 ** int(rng.choice([-8, 6] if s.get('single') or s['params'].get('dtype', 'double') != 'double' else [-40, -24, -8, 10, 30]))
    return s


def rescale(rng, s):
    """the same record in other units (a power of two) or around another level; the reference is computed in the old ones"""
    p = s['params']
    if s.get('dtypein') or rng.random() < .5: return s
    single = p.get('dtype', 'double') != 'double'
    d = np.array(s['data'])
    n = int(p['n_dft']); still = any((d[k:k + n] == d[k]).all(axis=0).any() for k in range(len(d) - n + 1))
    if not (p.get('normalize_data') and still): s['gain'] = 2.0 ** int(rng.choice([-12, 9] if single or p.get('normalize_data') else [-44, -34, -22, -12, 9, 30]))
    if not single and p.get('mean_type', 'longtime').lower() != 'zero' and rng.random() < .4: s['shift'] = s.get('gain', 1.0) * 2.0 ** int(rng.integers(3, 21))
    return s


def mixed(rng, s):
    """the first data set integers (or real), the next ones not"""
    if not s.get('splits') or s.get('kind') == 'nc' or any(q in s for q in ('dtypein', 'gain', 'shift', 'cols')): return s
    d = np.array(s['data']); k = s['splits'][0]; more = len(s['splits']) - 1
    if not more: return s
    if s.get('cplx'):
        d[:k, :, 1] = 0; s['mixed'] = [str(rng.choice(['float64', 'int32', 'float32']))] + ['complex128'] * more
    else:
        n = int(s['params'].get('n_dft', len(d))); p = s['params']
        still = any((d[i:i + n] == d[i]).all(axis=0).any() for i in range(len(d) - n + 1))
        if p.get('normalize_data') and still: return s
        d[:k] *= 2; s['gain'] = .5; s['mixed'] = [str(rng.choice(['int64', 'int16', 'float32']))] + ['float64'] * more
    s['data'] = d.tolist()
    return s


def record(s, o, want='both'):
    """record for SpodRef; None if the observation does not carry results"""
    p = s['params']
    nv = s['nv']; P = int(np.prod(s['xshape'])) * nv
    w = s.get('weights')
    w = [int(round(1000 * x / s.get('wscale', 1))) for x in w] if w is not None else [1000] * P
    d = s['data'] if s.get('cplx') else [[[x, 0] for x in row] for row in s['data']]
    E = np.array(o['eigs']) if not isinstance(o['eigs'][0][0], list) else np.array(o['eigs'][0]) + 1j * np.array(o['eigs'][1])
    g = s.get('gain', 1.0)
    E = E / s.get('wgain', 1.0) / g ** (2 * (-1 if p.get('normalize_data') else 1) - 2 * bool(p.get('normalize_weights')))
    eigreal = bool(np.isrealobj(E) or (np.abs(E.imag) <= 1e-9 * np.abs(E).max()).all())
    R = np.real(E)
    single = p.get('dtype', 'double') != 'double'
    thr, tol = (1e-3, 2) if single else (1e-6, 1)
    big, rank = [], []
    for f in range(R.shape[0]):
        m = max(np.nanmax(np.abs(R).max(axis=0), initial=0), 1e-30)  # largest eigenvalue of the spectrum
        top = max(R[f][0], 0)
        big.append([bool(x > thr * m and x > thr * top) for x in R[f]])
        # sign and order: values within rounding of zero count as zero
        q = [0.0 if abs(x) <= (1e-4 if single else 1e-9) * m else x for x in R[f]]
        u = sorted(set(x for x in q if x >= 0))
        rank.append([u.index(x) if x >= 0 else -1 for x in q])
    r = dict(want=want, n=int(p['n_dft']), ovl=p.get('overlap', 0), nt=len(d), P=P, nv=nv, d=d, mean=p.get('mean_type', 'longtime').lower(),
             normdata=bool(p.get('normalize_data', False)), normw=bool(p.get('normalize_weights', False)), w=w,
             isreal=not s.get('cplx') or all(x[1] == 0 for row in d for x in row), full=bool(p.get('fullspectrum', False)),
             nmodes=int(min(p.get('n_modes_save', 10**6), 10**6)), tol=tol,
             nb=o['nb'], nf=o['nf'], eigs=fxa(R, 10000), eigreal=eigreal, rank=rank, big=big, modes=[])
    if 'modes' in o and want != 'eig':
        ms = []
        for f, (re, im) in enumerate(o['modes']):
            sh = o['mshapes'][f]
            a = np.array(re) + 1j * np.array(im)
            if p.get('normalize_weights'): a = a / g
            a = a * s.get('wgain', 1.0) ** .5
            if sh[:-1] != list(s['xshape']) + [nv]:
                ms.append([]); continue
            a = a.reshape(P, sh[-1]) if P * sh[-1] == a.size else np.zeros((0, 0))
            ms.append([fxc(a[:, k], 1000) for k in range(a.shape[1])])
        r['modes'] = ms
    return r


