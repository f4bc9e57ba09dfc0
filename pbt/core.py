"""Engine: registers generated checks, runs them with Hypothesis in forked workers, shrinks, writes replay and evidence files."""
import argparse, collections, contextlib, hashlib, importlib, json, logging, math, os, shutil, signal, sys, tempfile, time, traceback, warnings

try:
    import hypothesis
except ImportError:
    # hypothesis is not in /opt/venv: use the pre-installed tooling venv (same interpreter version), after /opt/venv's own packages
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import hypothesis
import hypothesis.internal.conjecture.engine as _hce
from hypothesis import HealthCheck, Phase, given, settings, seed as hyp_seed, strategies as st

import numpy as np

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

SHRINK_S = 45.0            # time allowed for shrinking after a first failure
CASE_CPU_S = 200           # CPU seconds of one case after which it is reported as not terminating (typical: under 1 s)
SOFT_S = {'quick': 420.0, 'thorough': 3000.0}   # no new cases are started after this (counted as not run)
HARD_S = {'quick': 780.0, 'thorough': 6000.0}
MAX_WORKERS = int(os.environ.get('VERIF_WORKERS', '6'))

SUBS = collections.OrderedDict()


class Violation(AssertionError):
    pass


class Sub:

    def __init__(self, name, fn, strategy, quick, thorough, shards, rule):
        self.name, self.fn, self.strategy = name, fn, strategy
        self.quick, self.thorough, self.shards, self.rule = quick, thorough, shards, rule


def check(name, strategy, quick, thorough = None, shards = 1, rule = None):
    """Registers a check function fn(spec, ctx) deciding one aspect of the property for one JSON-able generated case."""

    def deco(fn):
        assert name not in SUBS
        SUBS[name] = Sub(name, fn, strategy, quick, thorough if thorough is not None else quick * 20, shards,
                         rule or ' '.join((fn.__doc__ or '').split()))
        return fn

    return deco


class Ctx:
    """Passed to a check function for each case."""

    def __init__(self, base):
        self.base = base
        self.labels = collections.Counter()
        self.is_nontrivial = False
        self._tmp = None
        self._models = []

    def label(self, *names):
        for n in names:
            self.labels[str(n)] += 1

    def nontrivial(self, cond = True):
        if cond:
            self.is_nontrivial = True

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(dir = self.base)
        return self._tmp

    def path(self, name):
        return os.path.join(self.tmp, name)

    def track(self, model):
        self._models.append(model)
        return model

    def new_model(self, name = 'm.epc', **kw):
        import resqpy.model as rq
        return self.track(rq.new_model(self.path(name), quiet = True, **kw)
                          if 'quiet' in rq.new_model.__code__.co_varnames else rq.new_model(self.path(name), **kw))

    def open_model(self, name = 'm.epc', **kw):
        import resqpy.model as rq
        p = name if os.path.isabs(name) else self.path(name)
        return self.track(rq.Model(p, quiet = True, **kw))

    def reopen(self, model, **kw):
        """Stores model, releases its hdf5 file and returns a fresh model object for the same file."""
        model.store_epc(quiet = True)
        model.h5_release()
        return self.open_model(model.epc_file, **kw)

    def close(self):
        for m in self._models:
            try:
                m.h5_release()
            except Exception:
                pass
        self._models = []
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors = True)
            self._tmp = None


# ---------------------------------------------------------------- oracle helpers
def fail(msg):
    raise Violation(msg)


def ok(cond, msg = 'condition is false', *args):
    if not cond:
        raise Violation(str(msg) + (': ' + ', '.join(_short(a) for a in args) if args else ''))


def _short(x, n = 400):
    try:
        s = repr(x)
    except Exception as e:
        s = f'<unrepresentable {type(x).__name__}: {e}>'
    return s if len(s) <= n else s[:n] + '...'


def eq(a, b, msg = 'not equal'):
    r = (a == b)
    if isinstance(r, np.ndarray):
        r = r.all() and np.shape(a) == np.shape(b)
    if not r:
        raise Violation(f'{msg}: got {_short(a)}, expected {_short(b)}')


def close(a, b, tol = 1e-9, msg = 'not close', rel = 0.0):
    """a is within tol (+ rel * |b|) of b; NaN equals NaN."""
    if a is None or b is None:
        raise Violation(f'{msg}: got {_short(a)}, expected {_short(b)}')
    a_, b_ = float(a), float(b)
    if math.isnan(a_) and math.isnan(b_) or a_ == b_:
        return
    if not abs(a_ - b_) <= tol + rel * abs(b_):
        raise Violation(f'{msg}: got {a!r}, expected {b!r}')


def arr_eq(a, b, msg = 'arrays differ'):
    if a is None or b is None:
        raise Violation(f'{msg}: got {_short(a)}, expected {_short(b)}')
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f'{msg}: shape {a.shape}, expected {b.shape}')
    if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
        same = (a == b) | (np.isnan(a) & np.isnan(b))
    else:
        same = (a == b)
    if not np.all(same):
        i = np.argwhere(~np.atleast_1d(same))[0]
        raise Violation(f'{msg}: first difference at {tuple(int(x) for x in i)}: got {np.atleast_1d(a)[tuple(i)]!r}, '
                        f'expected {np.atleast_1d(b)[tuple(i)]!r}')


def arr_close(a, b, tol = 1e-9, msg = 'arrays differ', rel = 0.0):
    if a is None or b is None:
        raise Violation(f'{msg}: got {_short(a)}, expected {_short(b)}')
    a, b = np.asarray(a, dtype = float), np.asarray(b, dtype = float)
    if a.shape != b.shape:
        raise Violation(f'{msg}: shape {a.shape}, expected {b.shape}')
    if a.size == 0:
        return
    with np.errstate(all = 'ignore'):
        same = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol + rel * np.abs(b))
    if not np.all(same):
        same = np.atleast_1d(same)
        i = tuple(np.argwhere(~same)[0])
        raise Violation(f'{msg}: {int((~same).sum())} of {same.size} differ, first at {tuple(int(x) for x in i)}: '
                        f'got {np.atleast_1d(a)[i]!r}, expected {np.atleast_1d(b)[i]!r}')


@contextlib.contextmanager
def refuses(msg, *types):
    """The enclosed operation must raise one of the exception types (default: any Exception)."""
    try:
        yield
    except types or Exception:
        return
    raise Violation(msg + ': was accepted')


def raises(fn, *types):
    """Returns True if calling fn raises (one of types), else False."""
    try:
        fn()
    except types or Exception:
        return True
    return False


# ---------------------------------------------------------------- running
def normal(spec):
    return json.loads(json.dumps(spec))


def _canon(spec):
    return json.dumps(spec, sort_keys = True)


class _Hang(BaseException):
    pass


def _on_prof(signum, frame):
    raise _Hang()


def run_case(sub, spec, base):
    """Runs one case; returns (ctx, None) or (ctx, failure message)."""
    ctx = Ctx(base)
    msg = None
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        sub.fn(spec, ctx)
    except Violation as e:
        msg = str(e) + '\n' + _tb(e)
    except _Hang as e:
        msg = f'did not finish within {CASE_CPU_S} s of CPU time\n' + _tb(e)
    except hypothesis.errors.UnsatisfiedAssumption:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        msg = f'{type(e).__name__}: {e}\n' + _tb(e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.close()
    return ctx, msg


def _tb(e):
    lines = traceback.format_exception(type(e), e, e.__traceback__)
    s = ''.join(lines)
    return s[-3000:]


def worker(sub, n, seed, base, out, soft_end):
    """Body of a forked worker: generates up to n cases for sub; writes a json result file."""
    res = dict(sub = sub.name, evaluations = 0, skipped = 0, hashes = [], labels = {}, samples = [], failure = None, error = None)
    labels, hashes, all_hashes = collections.Counter(), set(), set()
    state = dict(first_fail = None, best = None)
    cur = out + '.current'

    def finish():
        res['labels'] = dict(labels)
        res['hashes'] = sorted(hashes)
        res['distinct'] = len(all_hashes)
        res['failure'] = state['best']
        with open(out + '.part', 'w') as fp:
            json.dump(res, fp)
        os.rename(out + '.part', out)

    def body(spec):
        now = time.time()
        if state['first_fail'] is not None:
            if now - state['first_fail'] > SHRINK_S:
                finish()
                os._exit(0)
        elif now > soft_end:
            res['skipped'] += 1
            return
        text = _canon(spec)
        spec = json.loads(text)
        with open(cur, 'w') as fp:
            fp.write(text)
        ctx, msg = run_case(sub, spec, base)
        if state['first_fail'] is None:
            res['evaluations'] += 1
            h = hashlib.md5(text.encode()).hexdigest()[:16]
            all_hashes.add(h)
            if ctx.is_nontrivial and h not in hashes:
                hashes.add(h)
                if len(res['samples']) < 12 and len(text) < 3000 and len(hashes) % 7 == 1:
                    res['samples'].append(dict(spec = spec, labels = sorted(ctx.labels)))
            for k in ctx.labels:
                labels[k] += 1
        if msg is not None:
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
            if state['best'] is None or len(text) <= len(state['best']['text']):
                state['best'] = dict(sub = sub.name, text = text, message = msg)
            raise Violation(msg)

    try:
        test = given(sub.strategy)(body)
        test = settings(max_examples = n, deadline = None, database = None, phases = (Phase.generate, Phase.shrink),
                        suppress_health_check = [HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
                        print_blob = False, report_multiple_bugs = False)(test)
        test = hyp_seed(seed)(test)
        test()
    except BaseException as e:
        if state['best'] is None:
            res['error'] = _tb(e)
    finish()
    os._exit(0)


def load_property(pid):
    SUBS.clear()
    importlib.import_module('pbt.props.' + pid.lower())
    return SUBS


def read_known(here, pid):
    """Returns list of dicts for the known findings of the property (lines 'known: {json}')."""
    out = []
    path = os.path.join(here, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: '):
                d = json.loads(line[7:])
                if d['property'] == pid:
                    out.append(d)
    return out


def read_regress(here, pid):
    path = os.path.join(here, 'regress', pid + '.jsonl')
    if not os.path.exists(path):
        return []
    return [json.loads(l) for l in open(path) if l.strip()]


def write_replay(here, pid, sub, text, message, tag = ''):
    d = os.path.join(here, 'replays')
    os.makedirs(d, exist_ok = True)
    h = hashlib.md5((sub + text).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{pid}-{sub}-{h}.json')
    with open(path, 'w') as fp:
        json.dump(dict(property = pid, sub = sub, spec = json.loads(text), message = message,
                       how = f'{here}/check.py {pid} --replay {path}'), fp, indent = 1)
    return path


def selftest(here):
    """Imports resqpy and every property module, and checks that each registers at least one check."""
    import resqpy.model
    for f in sorted(os.listdir(os.path.join(here, 'pbt', 'props'))):
        if f.endswith('.py') and f != '__init__.py':
            pid = f[:-3].upper()
            ok(load_property(pid), f'{pid} has no checks')
    print('self test passed')
    return 0


def main(argv, here):
    if argv == ['--selftest']:
        return selftest(here)
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default = os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--sub', action = 'append')
    ap.add_argument('--scale', type = float, default = 1.0)
    ap.add_argument('--no-evidence', action = 'store_true')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    pid = a.pid
    t0 = time.time()
    base_root = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > (1 << 30) else None
    base = tempfile.mkdtemp(prefix = 'rqv_', dir = base_root)
    cwd = os.path.join(base, 'cwd')
    os.mkdir(cwd)
    os.chdir(cwd)
    try:
        subs = load_property(pid)
        import resqpy
        assert os.path.realpath(resqpy.__file__).startswith(os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + '/'), resqpy.__file__
        if a.replay:
            d = json.load(open(a.replay))
            ctx, msg = run_case(subs[d['sub']], d['spec'], base)
            if msg:
                print(msg)
                print(f'VIOLATION property={pid} replay={a.replay}')
                return 1
            print('replay passes')
            return 0
        return _run_all(a, here, pid, tier, seed, subs, base, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(base, ignore_errors = True)


def _fork_case(sub, spec, base):
    """Runs one case in a forked child (isolation); returns failure message or None."""
    out = os.path.join(base, f'one_{time.time_ns()}')
    pid = os.fork()
    if pid == 0:
        try:
            _, msg = run_case(sub, spec, base)
            with open(out, 'w') as fp:
                json.dump(msg, fp)
        except BaseException:
            with open(out, 'w') as fp:
                json.dump('error: ' + traceback.format_exc(), fp)
        os._exit(0)
    _, status = os.waitpid(pid, 0)
    if not os.path.exists(out):
        return f'process died with status {status}'
    return json.load(open(out))


def _run_all(a, here, pid, tier, seed, subs, base, t0):
    failures, errors = [], []
    names = [s for s in subs if not a.sub or s in a.sub]

    # fixed cases first: known findings, then regressions of repaired defects and hand kept cases
    known_seen = 0
    for k in read_known(here, pid):
        if a.sub and k['sub'] not in a.sub:
            continue
        msg = _fork_case(subs[k['sub']], dict(k['spec'], _known = True) if isinstance(k['spec'], dict) else k['spec'], base)
        if msg:
            known_seen += 1
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    n_reg = 0
    for r in read_regress(here, pid):
        if r['sub'] not in names:
            continue
        n_reg += 1
        msg = _fork_case(subs[r['sub']], r['spec'], base)
        if msg:
            failures.append(dict(sub = r['sub'], text = _canon(r['spec']), message = msg))

    soft_end = t0 + SOFT_S[tier]
    hard_end = t0 + HARD_S[tier]
    jobs = []
    for name in names:
        s = subs[name]
        n = s.quick if tier == 'quick' else s.thorough
        n = max(1, int(n * a.scale))
        shards = s.shards if tier == 'quick' else max(s.shards, min(6, n // 200 or 1))
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            if m:
                jobs.append((name, k, m))
    running, results, pending = {}, [], list(jobs)
    pending.reverse()
    walls = {}
    while pending or running:
        while pending and len(running) < MAX_WORKERS:
            name, k, m = pending.pop()
            out = os.path.join(base, f'res_{name}_{k}')
            s = (seed * 1000003 + int(hashlib.md5(f'{pid}/{name}/{k}'.encode()).hexdigest()[:8], 16)) % (1 << 62)
            sys.stdout.flush()
            p = os.fork()
            if p == 0:
                try:
                    os.setpgid(0, 0)
                    wbase = os.path.join(base, f'w_{name}_{k}')
                    os.mkdir(wbase)
                    os.mkdir(os.path.join(wbase, 'cwd'))
                    os.chdir(os.path.join(wbase, 'cwd'))
                    worker(subs[name], m, s, wbase, out, soft_end)
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                os._exit(3)
            running[p] = (name, k, out, time.time())
        p, status = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            if time.time() > hard_end:
                for q, (name, k, out, ts) in running.items():
                    with contextlib.suppress(ProcessLookupError):
                        os.killpg(q, signal.SIGKILL)
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(q, signal.SIGKILL)
                    errors.append(f'{name}/{k}: stopped at the hard time limit')
                    os.waitpid(q, 0)
                running, pending = {}, []
                break
            time.sleep(0.02)
            continue
        if p not in running:
            continue
        name, k, out, ts = running.pop(p)
        walls[name] = walls.get(name, 0.0) + time.time() - ts
        if os.path.exists(out):
            results.append(json.load(open(out)))
        else:
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
            cur = out + '.current'
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) and os.path.exists(cur):
                failures.append(dict(sub = name, text = open(cur).read(), message = f'process died with signal {sig}'))
            else:
                errors.append(f'{name}/{k}: worker ended without a result (status {status})')
    per_sub = collections.OrderedDict()
    for name in names:
        rs = [r for r in results if r['sub'] == name]
        hashes = set()
        labels = collections.Counter()
        for r in rs:
            hashes.update(r['hashes'])
            labels.update(r['labels'])
            if r['failure']:
                failures.append(r['failure'])
            if r['error']:
                errors.append(f"{name}: {r['error']}")
        per_sub[name] = dict(rule = subs[name].rule, evaluations = sum(r['evaluations'] for r in rs), nontrivial = len(hashes),
                             not_run = sum(r['skipped'] for r in rs), labels = dict(sorted(labels.items())),
                             wall_s = round(walls.get(name, 0.0), 1),
                             samples = [x for r in rs for x in r['samples']])
    wall = time.time() - t0
    if not a.no_evidence:
        write_evidence(here, pid, tier, seed, per_sub, len(failures), wall, n_reg, known_seen)
    for name, d in per_sub.items():
        print(f"{pid} {name}: {d['evaluations']} cases, {d['nontrivial']} distinct non-trivial, {d['wall_s']} s"
              + (f", {d['not_run']} not run (time)" if d['not_run'] else '') + f"  {_short(d['labels'], 600)}")
    for f in failures:
        path = write_replay(here, pid, f['sub'], f['text'], f['message'])
        print(f"--- {f['sub']}: {f['message'][:3500]}\n    case: {f['text'][:1500]}")
        print(f'VIOLATION property={pid} replay={path}')
    if failures:
        return 1
    if errors:
        for e in errors:
            print('ERROR ' + e)
        return 2
    print(f'{pid}: held on everything explored ({wall:.1f} s)')
    return 0


def write_evidence(here, pid, tier, seed, per_sub, violations, wall, n_reg, known_seen):
    samples, size = [], 0
    for rank in range(3):
        for name, d in per_sub.items():
            if rank < len(d['samples']):
                s = dict(check = name, **d['samples'][rank])
                t = len(json.dumps(s))
                if size + t < 24000 and t < 4000:
                    samples.append(s)
                    size += t
    ev = dict(
        property = pid, tier = tier, seed = seed, level = 'exploration',
        coverage = dict(
            evaluations = sum(d['evaluations'] for d in per_sub.values()),
            distinct_nontrivial = sum(d['nontrivial'] for d in per_sub.values()),
            rule = 'Cases are drawn by Hypothesis strategies, one strategy per sub-check; a case counts as non-trivial when the '
            'sub-check reached its main comparison on an input with the features named in its rule. Per sub-check: ' +
            ' | '.join(f'{n}: {d["rule"]}' for n, d in per_sub.items())[:9000],
            samples = samples or [dict(check = n, note = 'no sample kept') for n in list(per_sub)[:1]],
            exhaustive = False,
            fixed_cases_replayed = n_reg,
            known_findings_seen = known_seen,
            per_check = {n: dict(evaluations = d['evaluations'], distinct_nontrivial = d['nontrivial'], not_run = d['not_run'], wall_s = d['wall_s'],
                                 labels = dict(list(d['labels'].items())[:40])) for n, d in per_sub.items()}),
        assumptions = ['CPython 3.12 with the library versions of /opt/venv', 'floating point comparisons use the tolerances written in the check'],
        wall_s = round(wall, 2), violations = violations)
    d = os.path.join(here, 'evidence')
    os.makedirs(d, exist_ok = True)
    tmp = os.path.join(d, f'.{pid}.tmp')
    with open(tmp, 'w') as fp:
        json.dump(ev, fp, indent = 1)
    os.replace(tmp, os.path.join(d, pid + '.json'))
