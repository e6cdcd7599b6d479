import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from proj import *
from spodrec import *
import numpy as np


def brief(s):
    """short description of a scenario"""
    d = {k: v for k, v in s.items() if k not in ('data', 'weights', 'mod', 'params')}
    if 'params' in s: d['params'] = {k: v for k, v in s['params'].items() if k != 'time_step'}
    if 'data' in s: d['nt'] = len(s['data'])
    if s.get('weights') is not None: d['w'] = 'user'
    return json.dumps(d, sort_keys=True)[:400]


def tpick(quick, thorough):
    return thorough if THOROUGH else quick


def execute(c, scens, ranks, tag='s', width=5, per=60, split_jobs=1):
    """scens: list of scenarios; ranks: list (same length) of rank counts (0 = serial process).
    Returns list of observations (list per rank), None where the code raised / hung (recorded as violation)."""
    groups = {}
    for i, n in enumerate(ranks): groups.setdefault(n, []).append(i)
    jobs = []
    for n, idx in groups.items():
        k = min(split_jobs, len(idx)) if n else min(3, max(1, len(idx) // 12))
        for j in range(k): jobs.append((n, idx[j::k]))
    outs = [None] * len(scens)
    rs = pmap([lambda n=n, idx=idx, q=q: run_code([scens[i] for i in idx], c.scratch, n, tag='%s%d' % (tag, q), per=per)
               for q, (n, idx) in enumerate(jobs)], width=width)
    for (n, idx), r in zip(jobs, rs):
        for j, i in enumerate(idx): outs[i] = r[j]
    return outs


def problem(o):
    """None, or what went wrong in an execution that has to succeed"""
    if isinstance(o, dict):
        return 'does not complete: %s (ranks reported: %s)' % (o.get('hang'), [bool(x) for x in o.get('ranks', [])])
    e = [(r, x) for r, x in enumerate(o) if isinstance(x, dict) and 'error' in x]
    if e: return 'raised on rank %d: %s at %s' % (e[0][0], e[0][1]['error'], e[0][1]['where'])
    return None


def need(c, scens, outs, ranks):
    """observations of executions that must succeed; failures become violations"""
    good = []
    for i, (s, o) in enumerate(zip(scens, outs)):
        p = problem(o)
        if p: c.violation(None, '%s (%s ranks): %s' % (brief(s), ranks[i] or 'serial', p), dict(scenario=s, ranks=ranks[i]))
        else: good.append(i)
    return good
