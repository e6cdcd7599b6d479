"""Shared machinery of the checks: scratch space, running the code under test (serial / MPI),
running TLC, collecting verdicts, known findings, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal, threading, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
MPIEXEC = '/usr/bin/mpiexec.openmpi'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
BIG = 1000000000          # sentinel for non-finite / out-of-range projections


def env_code(**kw):
    e = dict(os.environ)
    e.update(LC_ALL='C.UTF-8', MPLBACKEND='Agg', TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='',
             MPI4PY_MPIABI='openmpi', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore',
             OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader',
             OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm_rsh_agent='/bin/false',
             OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none',
             OMPI_MCA_mpi_yield_when_idle='1',
             MPLCONFIGDIR='/tmp/vp_mpl', PYTHONPATH=REPO + ':' + os.path.join(VERIF, 'lib'),
             HOME=os.environ.get('HOME', '/root'))
    e.update({k: str(v) for k, v in kw.items()})
    return e


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vp_%s_' % pid, dir=tempfile.gettempdir())
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.models = {}
        self.violations = []     # (key, message, replay record)
        self.assumptions = []
        self.known = [k for k in load_known() if k['property'] == pid]
        self.errors = []

    # ---- bookkeeping -------------------------------------------------------------
    def sample(self, s, n=6):
        if len(self.cov['samples']) < n: self.cov['samples'].append(s)

    def violation(self, key, msg, rec=None):
        self.violations.append((key, msg, rec))

    def error(self, msg):
        self.errors.append(msg)

    def tmp(self, name):
        return os.path.join(self.scratch, name)

    # ---- TLC -----------------------------------------------------------------------
    def model(self, module, cfg=None, constants_env=None, workers=4, timeout=600, expect_distinct=1, heap='2g'):
        """Exhaustive check of a design module.  A failure here is a failure of the machinery
        (the design specification does not depend on the code)."""
        r = run_tlc(module, cfg or module + '.cfg', self.scratch, env=constants_env or {}, workers=workers,
                    timeout=timeout, heap=heap)
        if r['rc'] != 0:
            self.error('model %s: TLC exit %s\n%s' % (module, r['rc'], r['out'][-1500:]))
        self.cov['states'] += r['distinct']; self.cov['transitions'] += r['generated']
        self.models[module + ('/' + cfg if cfg else '')] = dict(distinct=r['distinct'], generated=r['generated'],
                                                               depth=r['depth'], wall_s=round(r['wall'], 1))
        if r['rc'] == 0 and r['distinct'] < expect_distinct:
            self.error('model %s explored only %d states' % (module, r['distinct']))
        return r

    def validate(self, module, records, chunks=4, timeout=600, env=None, keyf=None, cfg=None, heap='3g'):
        """Trace validation: every record is one step of the trace specification; the verdict is the set of
        (record, failing clause).  Returns list of (record, [clauses])."""
        if not records: return []
        for i, r in enumerate(records): r.setdefault('id', i)
        n = max(1, min(chunks, (len(records) + 3) // 4))
        # contiguous records with the same 'hist' must stay together
        groups, last = [], object()
        for r in records:
            h = r.get('hist', None)
            if h is not None and h == last: groups[-1].append(r)
            else: groups.append([r])
            last = h
        buckets = [[] for _ in range(n)]; sizes = [0] * n
        for g in sorted(groups, key=lambda g: -sum(r.get('cost', 1) for r in g)):
            k = sizes.index(min(sizes)); buckets[k] += g; sizes[k] += sum(r.get('cost', 1) for r in g)
        res, threads, lock = [], [], threading.Lock()
        def one(k, recs):
            if not recs: return
            tf, of = self.tmp('trace_%s_%d.ndjson' % (module, k)), self.tmp('verdict_%s_%d.json' % (module, k))
            with open(tf, 'w') as f:
                for r in recs: f.write(json.dumps(r) + '\n')
            if os.path.exists(of): os.remove(of)
            e = dict(TRACE=tf, OUT=of); e.update(env or {})
            r = run_tlc(module, cfg or module + '.cfg', self.scratch, env=e, workers=1, timeout=timeout, tag=str(k), heap=heap)
            with lock:
                self.cov['transitions'] += max(r['generated'] - 1, 0)
                if r['rc'] == 0 and os.path.exists(of):
                    bad = json.load(open(of))
                    by = {}
                    for b in bad: by.setdefault(b[0], []).append(b[1])
                    for x in recs: res.append((x, sorted(by.get(x['id'], []))))
                elif len(recs) == 1 or all(x.get('hist', None) is not None for x in recs) and len({x['hist'] for x in recs}) == 1:
                    if r['evalerr']:
                        for x in recs[:1]: res.append((x, ['not interpretable by the specification: ' + r['evalerr']]))
                        for x in recs[1:]: res.append((x, []))
                    else:
                        self.error('validate %s: TLC exit %s\n%s' % (module, r['rc'], r['out'][-1500:]))
                elif r['evalerr']:
                    retry.append(recs)
                else:
                    self.error('validate %s: TLC exit %s\n%s' % (module, r['rc'], r['out'][-1500:]))
        retry = []
        for k, recs in enumerate(buckets):
            t = threading.Thread(target=one, args=(k, recs)); t.start(); threads.append(t)
        for t in threads: t.join()
        # isolate the records TLC could not evaluate (bisection)
        cnt = 100
        while retry:
            recs = retry.pop()
            gs, last = [], object()
            for r in recs:
                h = r.get('hist', None)
                if h is not None and h == last: gs[-1].append(r)
                else: gs.append([r])
                last = h
            half = len(gs) // 2
            for part in (gs[:half], gs[half:]):
                flat = [r for g in part for r in g]
                cnt += 1
                if cnt < 116: one(cnt, flat)
            if self.errors: break
        self.cov['traces_validated_against_impl'] += len(groups)
        return res

    def judge(self, module, records, describe, key=None, **kw):
        """validate + turn failing clauses into violations."""
        out = self.validate(module, records, **kw)
        for rec, clauses in out:
            if clauses:
                k = key(rec, clauses) if key else None
                self.violation(k, '%s: %s' % (describe(rec), '; '.join(clauses)), rec)
        return out

    # ---- end ----------------------------------------------------------------------
    def finish(self, extra=None):
        new, seen = [], {}
        for key, msg, rec in self.violations:
            m = [k for k in self.known if key is not None and k['key'] == key]
            if m: seen.setdefault(key, m[0])
            else: new.append((key, msg, rec))
        for k in self.known:
            if k['key'] in seen: print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        self.cov['models'] = self.models
        if extra: self.cov.update(extra)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        rc = 0
        if new:
            rp = os.path.join(VERIF, 'evidence', 'replay_%s.json' % self.pid)
            with open(rp, 'w') as f:
                json.dump([dict(key=k, message=m, record=r) for k, m, r in new[:20]], f, indent=1, default=str)
            for k, m, r in new[:8]: print('  violation: ' + str(m)[:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            rc = 1
        elif self.errors:
            for e in self.errors[:2]: print('ERROR: ' + e[:900], file=sys.stderr)
            rc = 2
        else:
            print('OK property=%s wall=%.1fs states=%d traces=%d' % (
                self.pid, time.time() - self.t0, self.cov['states'], self.cov['traces_validated_against_impl']))
        shutil.rmtree(self.scratch, ignore_errors=True)
        sys.stdout.flush()
        os._exit(rc)


def load_known():
    f = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and l.startswith('{'):
                d = json.loads(l)
                if d.get('status') == 'known': out.append(d)
    return out


def run_tlc(module, cfg, scratch, env=None, workers=1, timeout=600, tag='', heap='2g', extra=()):
    spec = os.path.join(VERIF, 'spec')
    meta = tempfile.mkdtemp(prefix='tlc_', dir=scratch)
    e = dict(os.environ); e.update({k: str(v) for k, v in (env or {}).items()})
    e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss64m -XX:+UseParallelGC -XX:ParallelGCThreads=2 -XX:TieredStopAtLevel=%d' % (heap, 4)
    t = time.time()
    cmd = ['tlc', '-noGenerateSpecTE', '-deadlock', '-metadir', meta, '-workers', str(workers), *extra,
           '-config', os.path.join(spec, cfg), os.path.join(spec, module + '.tla')]
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = 124, (x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or '')) + '\nTIMEOUT'
    shutil.rmtree(meta, ignore_errors=True)
    g = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', out)
    d = re.findall(r'depth of the complete state graph search is (\d+)', out)
    err = None
    if rc != 0:
        m = re.search(r'Error: (?!The behavior|The error occurred|TLC threw)([^\n]*(?:\n[^\n]*)?)', out)
        if 'Parsing or semantic analysis failed' in out: m = None
        if m: err = m.group(1).replace('\n', ' ')[:300]
    return dict(rc=rc, out=out, generated=int(g[-1][0]) if g else 0, distinct=int(g[-1][1]) if g else 0,
                depth=int(d[-1]) if d else 0, wall=time.time() - t, evalerr=err)


def run_code(scens, scratch, n=0, tag='s', per=60, startup=90, worker='worker.py'):
    """Run scenarios on the real code.  n=0: serial process; n>0: n MPI ranks.
    Returns {scenario index: [obs of rank 0, rank 1, ...] or dict(hang=..)}; scenarios that hang or kill the job
    are marked and the remaining ones are run in a new job."""
    results = {}
    todo = list(range(len(scens)))
    attempt = 0
    ranks = max(n, 1)
    while todo and attempt < 5:
        attempt += 1
        d = tempfile.mkdtemp(prefix='run_%s_' % tag, dir=scratch)
        with open(os.path.join(d, 'scens.json'), 'w') as f: json.dump([scens[i] for i in todo], f)
        cmd = [PY, '-u', os.path.join(VERIF, 'lib', worker), d]
        if n > 0: cmd = [MPIEXEC, '-n', str(n)] + cmd
        log = open(os.path.join(d, 'log'), 'w')
        p = subprocess.Popen(cmd, cwd=d, env=env_code(TMPDIR=d, VP_N=n), stdout=log, stderr=log, start_new_session=True)
        last, lastn, why = time.time(), 0, None
        while True:
            try:
                p.wait(0.05 if time.time() - last < 5 else 0.3); break
            except subprocess.TimeoutExpired: pass
            k = sum(os.path.getsize(x) for x in glob.glob(d + '/out.*'))
            if k != lastn: last, lastn = time.time(), k
            if time.time() - last > (per if lastn else startup):
                why = 'no progress for %d s' % per
                break
        if why is None and p.returncode != 0: why = 'job ended with status %s' % p.returncode
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait(); log.close()
        per_rank = []; began = 0
        for r in range(ranks):
            fn = os.path.join(d, 'out.%d' % r); rows = {}
            if os.path.exists(fn):
                for line in open(fn):
                    try: row = json.loads(line)
                    except ValueError: continue
                    if row['i'] < 0: began += 1
                    else: rows[row['i']] = row['obs']
            per_rank.append(rows)
        done = [j for j in range(len(todo)) if all(j in rows for rows in per_rank)]
        for j in done: results[todo[j]] = [rows[j] for rows in per_rank]
        rest = [j for j in range(len(todo)) if j not in done]
        if rest:
            if why is None: why = 'job ended early'
            tailtxt = open(os.path.join(d, 'log')).read()[-1500:]
            if began < ranks and not any(per_rank) and not done and attempt >= 2:
                # never started: machinery problem
                raise RuntimeError('worker did not start: %s\n%s' % (why, tailtxt))
            if began < ranks and not any(per_rank) and not done:
                shutil.rmtree(d, ignore_errors=True); continue
            first = rest[0]
            if 'started' not in per_rank[0] and first == 0 and not done: pass
            results[todo[first]] = dict(hang=why, ranks=[rows.get(first) for rows in per_rank], log=tailtxt[-600:])
            todo = [todo[j] for j in rest[1:]]
        else: todo = []
        shutil.rmtree(d, ignore_errors=True)
    for i in todo: results[i] = dict(hang='not run: earlier scenarios hang', ranks=[], log='')
    return results


def pmap(jobs, width=4):
    """Run thunks concurrently, return results in order (exceptions re-raised)."""
    res = [None] * len(jobs); exc = []
    sem = threading.Semaphore(width)
    def one(k):
        with sem:
            try: res[k] = jobs[k]()
            except BaseException as e: exc.append(e)
    ts = [threading.Thread(target=one, args=(k,)) for k in range(len(jobs))]
    for t in ts: t.start()
    for t in ts: t.join()
    if exc: raise exc[0]
    return res
