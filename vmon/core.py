"""The monitor's run time: cases, observers, verdicts, shrinking, replay files and evidence."""
import collections, hashlib, json, multiprocessing, os, random, resource, signal, sys, time, traceback

from . import boot

QUICK, THOROUGH = 'quick', 'thorough'


class Violation(Exception):
    """An oracle refuted the property on an execution of the real code"""
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind, self.msg = kind, msg


class HarnessError(Exception):
    """The harness itself failed; the run is inconclusive"""


class Skip(Exception):
    """The case is outside of the property's domain"""


class CpuLimit(BaseException):
    pass


def digest(x):
    return hashlib.blake2b(repr(x).encode('utf8', 'surrogatepass'), digest_size=8).hexdigest()


class Obs:
    """What the monitors observed: events by kind, and distinct states by digest"""
    def __init__(self):
        self.events = collections.Counter()
        self.states = set()
        self.known = set()

    def ev(self, kind, n=1):
        self.events[kind] += n

    def state(self, x):
        self.states.add(digest(x))

    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def eq(self, kind, got, expected, what):
        self.events['compare:' + kind] += 1
        if got != expected:
            raise Violation(kind, '{}: got {}, expected {}'.format(what, short(got), short(expected)))

    def true(self, kind, cond, msg):
        self.events['assert:' + kind] += 1
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)


class NullObs(Obs):
    """For workloads whose own oracle is not the one that decides: nothing is compared"""
    def fail(self, kind, msg):
        pass

    def eq(self, kind, got, expected, what):
        pass

    def true(self, kind, cond, msg):
        pass


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...[{} chars]'.format(len(s))


def first_diff(got, exp):
    """Describe the first difference of two sequences"""
    for i, (a, b) in enumerate(zip(got, exp)):
        if a != b:
            return 'item {}: got {}, expected {}'.format(i, short(a, 250), short(b, 250))
    return 'length {} instead of {}; first extra: {}'.format(
        len(got), len(exp), short((list(got)[len(exp):] or list(exp)[len(got):] or ['-'])[0], 250))


class cpu_limit:
    """Bounded progress: raise in the main thread after so many seconds of CPU time of this process"""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(sig, frame):
            raise CpuLimit()
        self.old = signal.signal(signal.SIGPROF, handler)
        signal.setitimer(signal.ITIMER_PROF, self.seconds, 0.5)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)
        return False


def in_code_under_test(tb):
    root = os.path.realpath(boot.REPO) + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


class Check:
    """A property's monitor: gen() makes a JSON-able case, execute() runs the real code on it under observation.

    execute() raises Violation; any other exception that passed through the code under test is a
    violation as well (the workload only makes calls that the property says succeed, or expects the
    documented errors explicitly)."""

    id = None
    rule = ''
    quick_cases = 1000
    thorough_cases = 20000
    cpu_seconds = 120
    quick_wall = 300
    thorough_wall = 3000
    needs = ()            # Event kinds without which the run is inconclusive
    assumptions = ()
    level = 'exploration'

    def fixed_cases(self, tier):
        """Cases that run in every run, before the generated ones"""
        return []

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, case, obs):
        raise NotImplementedError

    def trivial(self, case):
        return False

    def known(self, obs):
        """Run the probes for known findings; yields (key, text) for each one that is still present"""
        return []

    # -- running ------------------------------------------------------------------------------

    def run_one(self, case, obs):
        """Return None, or (kind, message)"""
        try:
            with cpu_limit(self.cpu_seconds):
                try:
                    self.execute(case, obs)
                except Violation:
                    raise
                except Skip:
                    obs.ev('out-of-domain')
                    return None
                except RecursionError as e:
                    if in_code_under_test(e.__traceback__):
                        return ('exception', 'unexpected ' + short(repr(e)))
                    raise
        except Violation as v:
            return (v.kind, v.msg)
        except CpuLimit:
            return ('progress', 'no result after {} s of CPU time'.format(self.cpu_seconds))
        except Exception as e:
            if in_code_under_test(e.__traceback__):
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if os.path.realpath(f.filename).startswith(boot.REPO)][-1]
                return ('exception', 'unexpected {}: {} (raised in {} of {})'.format(
                    type(e).__name__, short(str(e)), where.name, os.path.basename(where.filename)))
            if isinstance(e, (LookupError, AttributeError, TypeError, ValueError, AssertionError)):
                # What the code returned does not have the shape that the property promises
                return ('shape', 'the monitor could not interpret what the code returned: ' +
                        ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:]))
            raise HarnessError(''.join(traceback.format_exception(type(e), e, e.__traceback__)))
        return None


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass


def _worker(check, tier, seed, w, n_workers, n_cases, deadline, q):
    _limits()
    obs = Obs()
    evaluations, distinct, samples, failures = 0, set(), [], []
    try:
        fixed = check.fixed_cases(tier)
        todo = [('fixed', k, c) for k, c in enumerate(fixed) if k % n_workers == w]
        todo_n = len(todo)
        i = w
        while True:
            if todo:
                origin, idx, case = todo.pop(0)
            else:
                if i >= n_cases or time.time() > deadline or len(failures) >= 3:
                    break
                origin, idx = 'gen', i
                case = check.gen(random.Random('{}/{}/{}'.format(seed, check.id, i)), i, tier)
                case = json.loads(json.dumps(case))
                i += n_workers
            evaluations += 1
            if not check.trivial(case):
                distinct.add(digest(json.dumps(case, sort_keys=True)))
                if len(samples) < 2 and len(json.dumps(case)) < 3000:
                    samples.append(case)
            bad = check.run_one(case, obs)
            if bad:
                failures.append(dict(origin=origin, index=idx, case=case, kind=bad[0], msg=bad[1]))
        q.put(dict(w=w, evaluations=evaluations, distinct=distinct, samples=samples, failures=failures,
                   events=dict(obs.events), states=obs.states, error=None))
    except BaseException as e:
        q.put(dict(w=w, evaluations=evaluations, distinct=distinct, samples=samples, failures=failures,
                   events=dict(obs.events), states=obs.states,
                   error=str(e) if isinstance(e, HarnessError) else traceback.format_exc()))


def candidates(x):
    """Smaller versions of a JSON value"""
    if isinstance(x, list):
        n = len(x)
        size = n // 2
        while size >= 1:
            for k in range(0, n, size):
                yield x[:k] + x[k + size:]
            size //= 2
        for k in range(n):
            for c in candidates(x[k]):
                yield x[:k] + [c] + x[k + 1:]
    elif isinstance(x, dict):
        for k in x:
            for c in candidates(x[k]):
                yield dict(x, **{k: c})
    elif isinstance(x, str) and len(x) > 1:
        yield x[:len(x) // 2]
        yield x[len(x) // 2:]
        yield x[:1]
    elif isinstance(x, int) and not isinstance(x, bool) and x > 1:
        yield x // 2


def signature(msg):
    """The type of an exception, how its text starts, and where it was raised"""
    if 'File "' in msg:
        return [l.strip() for l in msg.splitlines() if l.strip().startswith('File "')]
    return msg.split(' ')[:4], msg.split('(raised in')[-1]


def shrink(check, failure, seconds=25):
    """Greedily reduce the failing case while it fails in the same way"""
    end = time.time() + seconds
    case, kind, msg = failure['case'], failure['kind'], failure['msg']
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in candidates(case):
            if time.time() > end:
                break
            try:
                bad = check.run_one(json.loads(json.dumps(c)), Obs())
            except HarnessError:
                continue
            except Exception:
                continue
            if bad and bad[0] == kind and (kind not in ('exception', 'shape') or signature(bad[1]) == signature(msg)):
                case, msg, progress = c, bad[1], True
                break
    return case, msg


def _shrink_child(check, f, q):
    _limits()
    try:
        q.put(shrink(check, f))
    except BaseException:
        q.put((f['case'], f['msg']))


def write_evidence(check, tier, seed, coverage, wall, violations):
    d = os.path.join(boot.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = dict(property=check.id, tier=tier, seed=seed, level=check.level, coverage=coverage,
              assumptions=list(check.assumptions), wall_s=round(wall, 2), violations=violations)
    with open(os.path.join(d, check.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def load_findings():
    p = os.path.join(boot.VERIF, 'known_findings.json')
    with open(p) as f:
        return json.load(f)


def run(check, tier, seed):
    t0 = time.time()
    n = check.quick_cases if tier == QUICK else check.thorough_cases
    deadline = t0 + (check.quick_wall if tier == QUICK else check.thorough_wall)
    n_workers = int(os.environ.get('VMON_WORKERS') or 0) or max(2, min(8, os.cpu_count() or 2))
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    ps = [ctx.Process(target=_worker, args=(check, tier, seed, w, n_workers, n, deadline, q)) for w in range(n_workers)]
    for p in ps:
        p.start()
    results, dead = [], 0
    while len(results) < n_workers:
        try:
            results.append(q.get(timeout=5))
        except Exception:
            alive = [p for p in ps if p.is_alive()]
            if not alive and q.empty():
                dead = n_workers - len(results)
                break
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()

    ev = collections.Counter()
    states, distinct, samples, failures, errors = set(), set(), [], [], []
    evaluations = 0
    for r in sorted(results, key=lambda r: r['w']):
        ev.update(r['events']); states |= r['states']; distinct |= r['distinct']
        evaluations += r['evaluations']; samples += r['samples']; failures += r['failures']
        if r['error']:
            errors.append(r['error'])

    # Known findings: deterministic probes, listed in the committed file
    listed = {(k['property'], k['key']): k['text'] for k in load_findings().get('known', [])}
    known_lines = []
    o = Obs()
    for key, text in check.known(o):
        if (check.id, key) in listed:
            known_lines.append('KNOWN-FINDING: property={} {}'.format(check.id, listed[(check.id, key)]))
        else:
            failures.append(dict(origin='probe', index=key, case={'probe': key}, kind='probe', msg=text))
    ev.update(o.events)

    for k in check.needs:
        if not ev.get(k) and not failures:
            errors.append('inconclusive: the monitors never observed {!r}'.format(k))

    wall = time.time() - t0
    coverage = dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=check.rule,
                    samples=samples[:4], observed_events=dict(sorted(ev.items())),
                    distinct_states_observed=len(states), workers=n_workers)
    write_evidence(check, tier, seed, coverage, wall, len(failures))

    for l in known_lines:
        print(l)

    if failures:
        failures.sort(key=lambda f: len(json.dumps(f['case'])))
        f = failures[0]
        if f['origin'] != 'probe' and not os.environ.get('VMON_NO_SHRINK'):
            q2 = ctx.Queue()
            p = ctx.Process(target=_shrink_child, args=(check, f, q2))
            p.start()
            try:
                f['case'], f['msg'] = q2.get(timeout=120)
            except Exception:
                pass
            p.join(2)
            if p.is_alive():
                p.kill()
        d = os.path.join(boot.VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '{}-{}.json'.format(check.id, digest(json.dumps(f['case'], sort_keys=True))))
        with open(path, 'w') as fh:
            json.dump(dict(property=check.id, tier=tier, seed=seed, **f), fh, indent=1)
        print('property {} broken ({}): {}'.format(check.id, f['kind'], short(f['msg'], 1500)))
        print('VIOLATION property={} replay={}'.format(check.id, path))
        sys.stdout.flush()
        return 1

    if errors or dead:
        print('INCONCLUSIVE property={} {}'.format(check.id, '; '.join(errors[:1])[-2500:] or '{} workers died'.format(dead)))
        return 2

    print('property {} held on {} executions ({} distinct and non-trivial, {} distinct states, {} events) in {:.1f} s'
          .format(check.id, evaluations, len(distinct), len(states), sum(ev.values()), wall))
    return 0


def replay(check, path):
    with open(path) as f:
        r = json.load(f)
    if r.get('origin') == 'probe':
        for key, text in check.known(Obs()):
            if key == r['index']:
                print('VIOLATION property={} replay={}'.format(check.id, path))
                return 1
        return 0
    bad = check.run_one(r['case'], Obs())
    if bad:
        print('property {} broken ({}): {}'.format(check.id, *bad))
        print('VIOLATION property={} replay={}'.format(check.id, path))
        return 1
    print('property {} holds on the replayed case'.format(check.id))
    return 0
