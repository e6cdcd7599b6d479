"""Comparison of two fits of the same record (projection for T_Spmd and T_Store)."""
import numpy as np
from proj import *


def cplx(o, shape):
    a = np.array(o, dtype=float)
    if a.size == 2 * int(np.prod(shape)) and a.shape[0] == 2: a = a[0] + 1j * a[1]
    return a.reshape(shape) if a.size == int(np.prod(shape)) else a


def relu(a, b, unit):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: return BIG
    if a.size == 0: return 0
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return 0 if np.array_equal(a, b, equal_nan=True) else BIG
    m = max(np.abs(a).max(), np.abs(b).max())
    if m == 0: return 0
    v = np.abs(a - b).max() / m / unit
    return BIG if v >= BIG else int(np.ceil(v))


def modediff(a, b, unit):
    """distance of two vectors after removing one unit phase, relative"""
    if a.shape != b.shape: return BIG
    if not (np.isfinite(a).all() and np.isfinite(b).all()): return BIG
    p = np.vdot(a, b)
    ph = p / abs(p) if abs(p) > 0 else 1
    m = max(np.linalg.norm(a), np.linalg.norm(b))
    if m == 0: return 0
    v = np.linalg.norm(a * ph - b) / m / unit
    return BIG if v >= BIG else int(np.ceil(v))


SKIP = ('savedir', 'results_folder', 'reuse_blocks', 'savefft', 'savefreq_disk', 'savefreq_disk2')


def compare(a, b, unit, obs, streaming=False):
    """a, b: read_results of the two fits; obs: observations of all ranks of the second"""
    sh = all(a[k] == b[k] for k in ('eigs_shape', 'wshape', 'ltmshape') if k in a) if a['wshape'] == b['wshape'] else None
    x, y = cplx(a['eigs'], a['eigs_shape']), cplx(b['eigs'], b['eigs_shape'])
    r = dict(nb=[a['nb'], b['nb']], nf=[a['nf'], b['nf']], nms=[a['nms'], b['nms']], modes=[])
    wa, wb = np.array(a['weights'], float).reshape(-1), np.array(b['weights'], float).reshape(-1)
    la, lb = cplx(a['ltm'], a['ltmshape']).reshape(-1), cplx(b['ltm'], b['ltmshape']).reshape(-1)
    d = dict(freq=0 if a['freq'] == b['freq'] else 1, w=relu(wa, wb, unit), ltm=relu(la, lb, unit), eigs=relu(x, y, unit), conf=0)
    if 'cl' in a or 'cl' in b:
        d['conf'] = max(relu(cplx(a.get(k, []), a['eigs_shape']), cplx(b.get(k, []), b['eigs_shape']), unit) for k in ('cl', 'cu')) if 'cl' in a and 'cl' in b else BIG
    r['d'] = d
    r['ranks'] = all(o['attr_eigs'] == b['file_eigs'] and o['attr_freq'] == b['file_freq'] for o in obs)
    r['yaml'] = sorted(k for k in set(a['yaml']) | set(b['yaml']) if k not in SKIP and a['yaml'].get(k) != b['yaml'].get(k))
    r['shapes'] = a['eigs_shape'] == b['eigs_shape'] and a.get('mshapes') == b.get('mshapes') and wa.shape == wb.shape and la.shape == lb.shape
    if 'modes' in a and 'modes' in b and r['shapes']:
        e = np.abs(x) ** (2 if streaming else 1)
        top = e.max() if e.size else 1
        for f in range(len(a['modes'])):
            A, B = cplx(a['modes'][f], a['mshapes'][f]), cplx(b['modes'][f], b['mshapes'][f])
            nm = A.shape[-1]; A, B = A.reshape(-1, nm), B.reshape(-1, nm)
            row = []
            for k in range(nm):
                lev = e[f][k] / top if top > 0 else 0
                gap = min([abs(e[f][k] - e[f][j]) for j in range(e.shape[1]) if j != k] or [top]) / top if top > 0 else 0
                row.append([fx(lev, 1e6), fx(gap, 1e6), modediff(A[:, k], B[:, k], unit)])
            r['modes'].append(row)
    elif 'modes' in a or 'modes' in b:
        r['shapes'] = r['shapes'] and ('modes' in a) == ('modes' in b)
    return r
