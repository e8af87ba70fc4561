"""Common machinery of the checks: scratch space, running TLC, verdicts, evidence.

Every check is a Python program run by /verif/check with the repository's own interpreter.
The deciding oracle is always a TLA+ module in /verif/spec that TLC evaluates; this file only
moves behaviours between TLC and the real code and keeps the books.
"""
import atexit, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(1, min(8, os.cpu_count() or 1))


import threading
_LOCK = threading.Lock()

class MachineryError(Exception):
    pass


class CaseTimeout(BaseException):
    "raised in the code under test when a single case takes too long (it never terminates)"


class TLCResult:
    def __init__(self):
        self.records = []; self.states = 0; self.transitions = 0; self.rc = None
        self.out = ''; self.violated = None; self.wall = 0.0; self.coverage = {}


def untla(line):
    "a line PrintT wrote for a string: \"@@...\" -> the JSON value in it"
    s = line.strip()
    if not s.startswith('"@@'): return None
    return json.loads(json.loads(s)[2:])


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random(self.seed)
        self.scratch = os.environ['VERIF_SCRATCH']
        self.states = self.transitions = self.validated = 0
        self.samples = []; self.extra = {}; self.assumptions = []
        self.nviol = 0; self.viol_seen = set(); self.known_hit = {}
        self.known = [f for f in load_known() if f['property'] == pid and f['status'] == 'known']
        self.ntlc = 0
        self.exhaustive = None

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, mode='bfs', num=1000, depth=60, workers=NCPU, gen=None, timeout=800,
            allow_violation=False, seed=None, heap='6g', coverage=False, keep=True, sink=None, limit=None, props=()):
        """Run TLC on spec/<module>.tla with the text cfg.  gen: {name: text} of further modules.
        Returns TLCResult with the JSON records the specification printed."""
        if mode == 'sim' and workers > 1:
            # the workers of one TLC run draw the same random elements, so each gets a run of its own
            import concurrent.futures as cf, threading
            lock = threading.Lock(); out = TLCResult(); base = (self.seed if seed is None else seed) * 1000
            def put(rec):
                with lock:
                    if sink is not None: sink(rec)
                    if keep: out.records.append(rec)
            with cf.ThreadPoolExecutor(workers) as ex:
                rs = list(ex.map(lambda k: self.tlc(module, cfg, 'sim', num, depth, 1, gen, timeout, allow_violation, base + k, '3g', coverage, False, put, None if limit is None else -(-limit // workers), props), range(workers)))
            for r in rs:
                out.states += r.states; out.transitions += r.transitions; out.out += r.out; out.violated = out.violated or r.violated; out.wall = max(out.wall, r.wall)
            out.rc = max(r.rc for r in rs)
            out.records.sort(key=lambda x: json.dumps(x, sort_keys=True))   # the same order on every run
            return out
        with _LOCK: self.ntlc += 1; wd = os.path.join(self.scratch, f'tlc{self.ntlc}'); os.makedirs(wd)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'): os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
        for n, text in (gen or {}).items():
            p = os.path.join(wd, n)
            if os.path.islink(p): os.unlink(p)
            with open(p, 'wt', encoding='utf-8') as fh: fh.write(text)
        with open(os.path.join(wd, 'run.cfg'), 'wt') as fh: fh.write(cfg)
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss32m', f'-Djava.io.tmpdir={wd}', *props, '-cp', TLA_CP, 'tlc2.TLC',
               '-metadir', os.path.join(wd, 'meta'), '-workers', str(workers), '-config', 'run.cfg', '-noGenerateSpecTE']
        if coverage: cmd += ['-coverage', '1']
        if mode == 'sim':
            cmd += ['-simulate', f'num={num}', '-depth', str(depth), '-seed', str(self.seed if seed is None else seed)]
        cmd.append(module)
        r = TLCResult(); t = time.time()
        p = subprocess.Popen(cmd, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, encoding='utf-8', errors='replace')
        other = []
        killed = False
        def onalarm(): 
            p.kill()
        import threading
        tm = threading.Timer(timeout, onalarm); tm.start()
        n = 0
        try:
            for line in p.stdout:
                if line.startswith('"@@'):
                    n += 1
                    rec = untla(line)
                    if sink is not None: sink(rec)
                    if keep: r.records.append(rec)
                    if limit and n >= limit: killed = True; p.kill(); break
                else: other.append(line)
        finally:
            tm.cancel()
        p.wait(); r.rc = p.returncode; r.wall = time.time() - t
        r.out = ''.join(other)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', r.out)
        if m:
            r.transitions, r.states = (int(x.replace(',', '')) for x in m[-1])
        else:
            m = re.findall(r'([\d,]+) states checked', r.out) or re.findall(r'states generated: ([\d,]+)', r.out) or re.findall(r'number of states generated: ([\d,]+)', r.out)
            if m: r.transitions = r.states = int(m[-1].replace(',', ''))
        v = re.search(r'Error: (Invariant \S+ is violated|Action property .* is violated|Temporal properties were violated|.*POSTCONDITION.*|Assumption .* is false.*|Deadlock reached)', r.out)
        if v: r.violated = v.group(1)
        if not killed and r.rc != 0 and not (allow_violation and r.violated):
            raise MachineryError(f'TLC failed (rc={r.rc}) on {module}:\n' + r.out[max(0, r.out.find('Error:')):][:1500] + '\n...\n' + r.out[-2000:])
        with _LOCK: self.states += r.states; self.transitions += r.transitions
        shutil.rmtree(wd, ignore_errors=True)
        return r

    # ---------------------------------------------------------------- verdicts
    def violation(self, clause, what, data):
        """A disagreement between the specification and the code.  clause+key identify it."""
        key = data.get('key') if isinstance(data, dict) else None
        for f in self.known:
            if f.get('key') == key and f.get('clause') == clause:
                self.known_hit.setdefault(f['id'], f); return
        self.nviol += 1
        if (clause) in self.viol_seen and self.nviol > 8: return
        self.viol_seen.add(clause)
        d = os.path.join(VERIF, 'out', self.pid); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'violation-{self.nviol}.json')
        with open(path, 'wt', encoding='utf-8') as fh:
            json.dump({'property': self.pid, 'clause': clause, 'what': what, 'data': data, 'seed': self.seed, 'tier': self.tier}, fh, indent=1, ensure_ascii=False, default=repr)
        print(f'VIOLATION property={self.pid} replay={path} clause={clause}: {what}'[:1500], flush=True)

    def sample(self, x, n=4):
        if len(self.samples) < n: self.samples.append(x)

    def finish(self):
        for f in self.known_hit.values():
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}", flush=True)
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.validated,
               'samples': self.samples or ['none'], 'tlc_runs': self.ntlc}
        if self.exhaustive is not None: cov['exhaustive'] = self.exhaustive
        cov.update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': self.nviol}
        p = os.path.join(VERIF, 'evidence', f'{self.pid}.json')
        with open(p + '.tmp', 'wt', encoding='utf-8') as fh: json.dump(ev, fh, indent=1, ensure_ascii=False, default=repr)
        os.replace(p + '.tmp', p)
        print(f'{self.pid} {self.tier}: states={self.states} transitions={self.transitions} replayed={self.validated} violations={self.nviol} wall={time.time()-self.t0:.1f}s', flush=True)
        return 1 if self.nviol else 0


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    with open(p, encoding='utf-8') as fh: return json.load(fh)['findings']


# -------------------------------------------------------------------- running the real code
def quiet_import():
    "import the code under test with its chatter silenced"
    import logging
    logging.disable(logging.CRITICAL)
    os.getlogin = lambda: 'verif'
    if REPO not in sys.path: sys.path.insert(0, REPO)
    from BibleOrgSys import BibleOrgSysGlobals as G
    if not os.path.abspath(G.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise MachineryError(f'imported {G.__file__}, not the code in {REPO}')
    G.verbosityLevel = 0
    try: G.setVerbosity('Silent')
    except Exception: pass
    G.maxProcesses = 1
    G.preloadCommonData()
    return G


def _alarm(sig, frm):
    raise CaseTimeout()


def run_case(fn, case, seconds):
    "fn(case) -> list of (clause, what, data); total: exceptions of the code are verdicts of fn, not of this"
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn(case)
    except CaseTimeout:
        return [('terminates', f'no answer within {seconds}s to ' + repr(case)[:600], {'case': case})]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


_FN = None; _SEC = 20
def _pool_run(chunk):
    out = []
    for i, c in chunk:
        try:
            r = run_case(_FN, c, _SEC)
        except Exception:
            return ('MACH', traceback.format_exc() + '\ncase=' + repr(c)[:3000])
        if r: out.append((i, r))
    return ('OK', len(chunk), out)


def replay_all(chk, cases, fn, seconds=20, procs=NCPU, chunk=50, maxviol=40):
    "replay every case through the real code (forked workers); report disagreements"
    global _FN, _SEC
    _FN, _SEC = fn, seconds
    import multiprocessing as mp
    cases = list(cases)
    chunks = [[(i, cases[i]) for i in range(a, min(a + chunk, len(cases)))] for a in range(0, len(cases), chunk)]
    sys.stdout.flush()
    if not chunks: return
    ctx = mp.get_context('fork')
    nbad = 0
    with ctx.Pool(min(procs, len(chunks))) as pool:
        it = pool.imap_unordered(_pool_run, chunks)
        for _ in range(len(chunks)):
            try: res = it.next(timeout=600)
            except mp.TimeoutError: raise MachineryError('replay worker gave no answer')
            if res[0] == 'MACH': raise MachineryError('replay driver failed: ' + res[1])
            chk.validated += res[1]
            for i, r in res[2]:
                for clause, what, data in r:
                    nbad += 20 if clause == 'terminates' else 1
                    chk.violation(clause, what, data)
            if nbad > maxviol: pool.terminate(); break


def main(fn):
    "entry point of every check program"
    try:
        rc = fn()
    except MachineryError as e:
        print('MACHINERY-ERROR', e, file=sys.stderr); sys.exit(3)
    except Exception:
        traceback.print_exc(); sys.exit(3)
    sys.stdout.flush()
    os._exit(rc)
