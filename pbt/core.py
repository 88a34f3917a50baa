"""Runner shared by every check.

A property module in pbt/props declares PID, RULE, and a list TESTS of Test objects.
A Test has a Hypothesis strategy producing *plain literal* cases (so a failing case is
written to the replay file with repr() and read back with ast.literal_eval) and a function
fn(case, cx) which raises when the property does not hold for the case.

Work is cut in chunks; a chunk's random seed is a function of (VERIF_SEED, property, test,
chunk number) only, so the outcome does not depend on which of the worker processes ran it.
"""
import os, sys, time, json, ast, hashlib, traceback, signal, resource, tempfile, shutil
import multiprocessing as mp

CASE_CPU_LIMIT = 60.0          # CPU seconds one small generated case may burn before it counts as a hang
SHRINK_LIMIT = {'quick': 45.0, 'thorough': 180.0}
MEM_LIMIT = 3 << 30


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


def eq(got, want, what):
    if got != want or type(got) is bool and type(want) is not bool:
        raise Violation('%s:\n   got      %s\n   expected %s' % (what, clip(got), clip(want)))


class Test:
    def __init__(self, name, strategy, fn, quick=200, thorough=4000, chunk=None, doc=''):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.chunk = chunk
        self.doc = doc or (fn.__doc__ or '').strip()


class Context:
    """Handed to every case; collects the classification of the case."""
    def __init__(self, scratch):
        self.scratch = scratch
        self.tags = {}
        self.begin()

    def begin(self):
        self._nontrivial = False
        self._case_tags = []

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def tag(self, *names):
        self._case_tags.extend(names)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def eq(self, got, want, what):
        eq(got, want, what)

    def path(self, name):
        return os.path.join(self.scratch, name)

    def write(self, name, data):
        p = self.path(name)
        with open(p, 'wb') as f:
            f.write(data)
        return p


def clip(x, n=700):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...(%d chars)' % len(r)


def derive_seed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def _on_cpu_alarm(signum, frame):
    raise Hang()


def classify(exc):
    """'violation', 'hang' or 'harness' for an exception that escaped a case."""
    if isinstance(exc, Hang):
        return 'hang'
    if isinstance(exc, Violation):
        return 'violation'
    from . import boot
    tb, inside = exc.__traceback__, False
    root = os.path.join(os.path.realpath(boot.REPO), '')
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            inside = True
        tb = tb.tb_next
    if inside:
        return 'violation'
    if isinstance(exc, (ImportError, MemoryError, NameError, SyntaxError)):
        return 'harness'
    if isinstance(exc, OSError) and not isinstance(exc, FileNotFoundError):
        return 'harness'
    return 'violation'


def run_case(test, case, cx):
    """Run one case under the CPU watchdog. Returns None or (kind, message)."""
    cx.begin()
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT, 5.0)
    try:
        test.fn(case, cx)
        signal.setitimer(signal.ITIMER_PROF, 0)
        return None
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        kind = classify(e)
        if kind == 'hang':
            msg = 'no result after %.0f s of CPU time' % CASE_CPU_LIMIT
        elif isinstance(e, Violation):
            msg = str(e)
        else:
            tail = traceback.extract_tb(e.__traceback__)[-3:]
            msg = 'raised %s: %s   at %s' % (
                type(e).__name__, clip(str(e), 300),
                ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tail)))
        return kind, msg


def run_chunk(mod, test, seed, n, tier, deadline, scratch):
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase
    cx = Context(scratch)
    st = {'evals': 0, 'nontrivial': set(), 'samples': [], 'tags': {}, 'fail': None,
          'stop': False, 'shrink_until': None, 'harness': None, 'skipped': 0}

    class Found(Exception):
        pass

    def body(case):
        if st['stop'] or st['harness']:
            return
        now = time.time()
        if st['fail'] is None and now > deadline:
            st['skipped'] += 1
            return
        if st['fail'] is not None:
            if st['fail']['kind'] == 'hang':
                if repr(case) == st['fail']['repr']:
                    raise Found()
                return
            if now > st['shrink_until']:
                if repr(case) == st['fail']['repr']:
                    raise Found()
                return
        res = run_case(test, case, cx)
        if st['fail'] is None:
            st['evals'] += 1
            r = repr(case)
            if cx._nontrivial:
                h = hashlib.blake2b(r.encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()
                if h not in st['nontrivial']:
                    st['nontrivial'].add(h)
                    if len(st['samples']) < 2 and len(r) < 1500:
                        st['samples'].append(r)
            for t in set(cx._case_tags):
                st['tags'][t] = st['tags'].get(t, 0) + 1
        if res is None:
            return
        kind, msg = res
        if kind == 'harness':
            st['harness'] = '%s\ncase: %s' % (msg, clip(case, 3000))
            return
        if st['fail'] is None:
            st['shrink_until'] = time.time() + SHRINK_LIMIT[tier]
        st['fail'] = {'kind': kind, 'msg': msg, 'case': case, 'repr': repr(case)}
        raise Found()

    runner = hypothesis.seed(seed)(settings(
        max_examples=n, database=None, deadline=None, print_blob=False,
        report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink), derandomize=False)(given(test.strategy)(body)))
    try:
        runner()
    except Found:
        pass
    except hypothesis.errors.Flaky:
        pass
    except BaseException as e:
        if st['fail'] is None:
            st['harness'] = 'generator: ' + ''.join(traceback.format_exception(e))[-3000:]
    return st


def _worker(mod, tasks, counter, outdir, tier, deadline, wid):
    signal.signal(signal.SIGPROF, _on_cpu_alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(1000)
    scratch = tempfile.mkdtemp(prefix='w%d-' % wid, dir=outdir)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(tasks):
            break
        ti, seed, n = tasks[i]
        test = mod.TESTS[ti]
        t0 = time.time()
        try:
            st = run_chunk(mod, test, seed, n, tier, deadline, scratch)
        except BaseException as e:
            st = {'harness': ''.join(traceback.format_exception(e))[-3000:], 'evals': 0, 'nontrivial': set(),
                  'samples': [], 'tags': {}, 'fail': None, 'skipped': 0}
        out = {'task': i, 'test': test.name, 'evals': st['evals'], 'nontrivial': sorted(st['nontrivial']),
               'samples': st['samples'], 'tags': st['tags'], 'harness': st['harness'],
               'skipped': st['skipped'], 'wall': time.time() - t0,
               'fail': None if st['fail'] is None else
               {k: st['fail'][k] for k in ('kind', 'msg', 'repr')}}
        tmp = os.path.join(outdir, 'r%d.tmp' % i)
        with open(tmp, 'w', errors='surrogatepass') as f:
            json.dump(out, f)
        os.rename(tmp, os.path.join(outdir, 'r%d.json' % i))
        if st['fail'] is not None or st['harness']:
            with counter.get_lock():     # a violation is decided: stop handing out work
                counter.value = len(tasks)
    os._exit(0)


def replay_case(mod, test_name, case_repr, scratch):
    """Run one saved case in a forked child. Returns (kind, msg), None, or ('died', ..)."""
    test = next(t for t in list(mod.TESTS) + list(getattr(mod, 'PROBES', [])) if t.name == test_name)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGPROF, _on_cpu_alarm)
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            res = run_case(test, ast.literal_eval(case_repr), Context(scratch))
            with os.fdopen(w, 'w', errors='surrogatepass') as f:
                json.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return ('died', 'process died')
    res = json.loads(data)
    return None if res is None else tuple(res)


def write_replay(pid, fail, test_name, seed, tier):
    from . import boot
    d = os.path.join(boot.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((test_name + fail['repr']).encode('utf-8', 'surrogatepass')).hexdigest()[:10]
    path = os.path.join(d, '%s-%s-%s.replay' % (pid, test_name, h))
    with open(path, 'w', errors='surrogatepass') as f:
        f.write('# property %s, test %s, seed %d, tier %s\n' % (pid, test_name, seed, tier))
        for line in fail['msg'].splitlines():
            f.write('# %s\n' % line)
        f.write('# rerun: ./check %s --replay %s\n' % (pid, path))
        f.write('TEST %s\n' % test_name)
        f.write('CASE %s\n' % fail['repr'])
    return path


def read_replay(path):
    test = case = None
    with open(path, errors='surrogatepass') as f:
        for line in f:
            if line.startswith('TEST '):
                test = line[5:].strip()
            elif line.startswith('CASE '):
                case = line[5:].rstrip('\n')
    return test, case


def known_findings(pid):
    """finding lines of known_findings.txt: 'finding: property=P01 key=K text' -> {K: text}"""
    from . import boot
    out = {}
    p = os.path.join(boot.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            parts = line[len('finding:'):].strip().split(None, 2)
            if parts[0] == 'property=' + pid:
                out[parts[1].split('=', 1)[1]] = parts[2]
    return out


def main(mod, tier, seed, only=None, scale=1.0):
    from . import boot
    pid = mod.PID
    t0 = time.time()
    budget = getattr(mod, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 3000)
    deadline = t0 + budget
    nproc = max(1, min(8, os.cpu_count() or 1))
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    outdir = tempfile.mkdtemp(prefix='pbt-%s-' % pid, dir=base)
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        tasks = []
        per = []
        for ti, t in enumerate(mod.TESTS):
            if only and t.name not in only:
                continue
            n = max(1, int((t.quick if tier == 'quick' else t.thorough) * scale))
            chunk = t.chunk or max(20, (n + nproc * 2 - 1) // (nproc * 2))
            k = 0
            while n > 0:
                m = min(chunk, n)
                per.append((k, ti, derive_seed(seed, pid, t.name, k), m))
                n -= m
                k += 1
        per.sort(key=lambda x: (x[0], x[1]))
        tasks = [(ti, s, m) for (_, ti, s, m) in per]
        counter = mp.Value('i', 0)
        procs = []
        for wid in range(min(nproc, len(tasks))):
            p = os.fork()
            if p == 0:
                try:
                    _worker(mod, tasks, counter, outdir, tier, deadline, wid)
                finally:
                    os._exit(3)
            procs.append(p)
        hard = deadline + SHRINK_LIMIT[tier] + CASE_CPU_LIMIT * 2 + 30
        died = []
        alive = set(procs)
        while alive:
            for p in list(alive):
                q, status = os.waitpid(p, os.WNOHANG)
                if q:
                    alive.discard(p)
                    if status:
                        died.append(status)
            if time.time() > hard:
                for p in alive:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    died.append('killed: no progress')
                break
            if alive:
                time.sleep(0.02)
        results = []
        for i in range(len(tasks)):
            f = os.path.join(outdir, 'r%d.json' % i)
            if os.path.exists(f):
                with open(f, errors='surrogatepass') as fh:
                    results.append(json.load(fh))
        evals = sum(r['evals'] for r in results)
        nontriv = set()
        tests = {}
        tags = {}
        samples = []
        for r in results:
            for h in r['nontrivial']:
                nontriv.add((r['test'], h))
            d = tests.setdefault(r['test'], {'evaluations': 0, 'distinct_nontrivial': 0, 'wall_s': 0})
            d['evaluations'] += r['evals']
            d['wall_s'] = round(d['wall_s'] + r['wall'], 1)
            for t, c in r['tags'].items():
                tags[r['test'] + ':' + t] = tags.get(r['test'] + ':' + t, 0) + c
        for (tn, h) in nontriv:
            tests[tn]['distinct_nontrivial'] += 1
        for tn in tests:
            ss = [s for r in results if r['test'] == tn for s in r['samples']]
            ss.sort(key=len)
            if ss:
                samples.append({'test': tn, 'case': clip_str(ss[len(ss) // 2], 800)})
        fails = [(r['test'], r['fail']) for r in results if r['fail']]
        harness = [(r['test'], r['harness']) for r in results if r['harness']]
        # confirm failures in a fresh process
        final, inconclusive = [], []
        seen = set()
        fails.sort(key=lambda x: len(x[1]['repr']))
        for tn, f in fails:
            if tn in seen:
                continue
            again = replay_case(mod, tn, f['repr'], tempfile.mkdtemp(dir=outdir))
            if again is None and f['kind'] == 'hang':
                inconclusive.append((tn, f))
                continue
            if again is None:
                f['msg'] += '\n(not reproduced in a fresh process: depends on cases run before it)'
            elif again[0] == 'harness':
                harness.append((tn, again[1]))
                continue
            else:
                f['msg'] = again[1]
            seen.add(tn)
            final.append((tn, f, write_replay(pid, f, tn, seed, tier)))
        # known findings: run each listed specific input; say so while it still fails
        for key, text in known_findings(pid).items():
            probe = getattr(mod, 'KNOWN', {}).get(key)
            if probe is None:
                harness.append((key, 'known finding %s has no probe in the property module' % key))
                continue
            tn, case = probe
            res = replay_case(mod, tn, repr(case), tempfile.mkdtemp(dir=outdir))
            if res is not None:
                print('KNOWN-FINDING: property=%s %s' % (pid, text))
        wall = round(time.time() - t0, 1)
        ev = {
            'property': pid, 'tier': tier, 'seed': seed,
            'level': getattr(mod, 'LEVEL', 'exploration'),
            'coverage': {
                'evaluations': evals, 'distinct_nontrivial': len(nontriv),
                'rule': ' '.join(mod.RULE.split()), 'samples': samples,
                'tests': tests, 'classes': dict(sorted(tags.items())),
                'budget_exhausted': sum(r['skipped'] for r in results) > 0,
                'skipped_for_budget': sum(r['skipped'] for r in results),
            },
            'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
            'wall_s': wall, 'violations': len(final),
        }
        os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
        evp = os.path.join(boot.VERIF, 'evidence', pid + '.json')
        with open(evp + '.tmp', 'w', errors='backslashreplace') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.rename(evp + '.tmp', evp)
        print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (pid, tier, seed, evals, len(nontriv), wall))
        for tn in tests:
            print('   %-28s %6d cases %6d non-trivial' % (tn, tests[tn]['evaluations'], tests[tn]['distinct_nontrivial']))
        for tn, f in inconclusive:
            print('inconclusive: %s: %s' % (tn, f['msg']))
        for tn, f, path in final:
            print('--- %s/%s: %s' % (pid, tn, f['msg']))
            print('    case: %s' % clip_str(f['repr'], 1500))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        if final:
            return 1
        for tn, h in harness:
            print('HARNESS ERROR in %s: %s' % (tn, h))
        if died:
            print('HARNESS ERROR: worker died: %r' % died)
        if harness or died:
            return 2
        if evals == 0 or not nontriv:
            print('HARNESS ERROR: nothing was explored')
            return 2
        return 0
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def clip_str(s, n):
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)
