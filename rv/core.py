"""
Shared machinery of the runtime monitors: worker pool, verdicts, evidence,
replays and known findings.

A check is a module in rv/checks with:

    PROPERTY = 'C05'
    TECHNIQUE / LEVEL / RULE / ASSUMPTIONS
    def plan(tier) -> {'cases': N, 'min_events': {...}, 'kinds': [...]}
    def prepare(tier, seed) / cleanup(): optional, before/after the workers
    class Workload:  (created once per worker, after the fork)
        def __init__(self, tier, worker)
        def generate(self, rng, index) -> data (JSON-able, bytes are fine)
        magnify = share of the cases whose data['files'] are made bigger
        def observe(self, case, data): runs the code, judges what it did

Every case runs the real code under observation; the oracle compares what was
observed with what the property allows and adds failures to the case.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import magnify

VERIF = os.environ.get('RV_VERIF') or os.path.dirname(
    os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')
WORK = os.path.join(VERIF, 'work')
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')

CPU_LIMIT = 20.0        # seconds of CPU per case before we start counting
CPU_MAX = 80.0          # seconds of CPU in which the counting run must end
LINE_LIMIT = 8000000    # executed source lines allowed when counting

# For trying out many changes (dev/mutants.py): stop at the first failure, run
# a part of the cases.
FAIL_FAST = bool(os.environ.get('RV_FAIL_FAST'))
SCALE = float(os.environ.get('RV_SCALE', '1'))


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class TooManySteps(BaseException):
    pass


class Case(object):
    """What one execution showed."""
    def __init__(self, data=None):
        self.data = data            # JSON-able: enough to replay
        self.failures = []          # [(key, text)]
        self.stats = collections.Counter()
        self.kinds = set()          # distinct states/behaviours seen
        self.nontrivial = False

    def fail(self, key, text):
        self.failures.append((key, text))

    def see(self, *kinds):
        self.kinds.update(kinds)


def jsonable(obj):
    if isinstance(obj, bytes):
        return {'b': obj.decode('latin1')}
    if isinstance(obj, (list, tuple)):
        return [jsonable(i) for i in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted((jsonable(i) for i in obj), key=repr)
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    return repr(obj)


def unjson(obj):
    if isinstance(obj, dict):
        if set(obj) == {'b'}:
            return obj['b'].encode('latin1')
        return {k: unjson(v) for k, v in obj.items()}
    if isinstance(obj, list):
        return [unjson(i) for i in obj]
    return obj


def digest(obj):
    return hashlib.sha1(json.dumps(
        jsonable(obj), sort_keys=True).encode('utf-8')).hexdigest()[:12]


def load_known(prop):
    """[(key, description)] of the findings that are listed, not repaired."""
    ret = []
    try:
        with open(KNOWN, encoding='utf-8') as fp:
            for line in fp:
                line = line.strip()
                if line.startswith('known: property={} '.format(prop)):
                    rest = line.split(' ', 2)[2]
                    assert rest.startswith('key='), line
                    key, _, desc = rest[4:].partition(' ')
                    ret.append((key, desc))
    except FileNotFoundError:
        pass
    return ret


# -- the limits on a single execution ---------------------------------------

def _on_cpu_limit(signum, frame):
    raise CaseTimeout()


def limited(func, *args, **kwargs):
    """
    Run func with a CPU time watchdog. If it fires, we do not know whether
    the code hangs or whether it is merely slow. So, run it again, counting
    executed source lines: that is a verdict on logical steps. (Cases are
    small: a few milliseconds is normal. Code that neither finishes nor
    executes many lines, in 80 seconds of CPU time, is inside a single
    library call that explodes, like a regular expression.)
    """
    old = signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        return func(*args, **kwargs)
    except CaseTimeout:
        pass
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    count_lines(func, *args, **kwargs)
    raise Inconclusive('slow but finished within the line limit')


def count_lines(func, *args, **kwargs):
    count = [0]

    def tracer(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] > LINE_LIMIT:
                raise TooManySteps(
                    '{}:{} after {} lines'.format(
                        frame.f_code.co_filename, frame.f_lineno, count[0]))
        return tracer

    old = signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, CPU_MAX)
    sys.settrace(tracer)
    try:
        func(*args, **kwargs)
    except CaseTimeout:
        raise TooManySteps('{} lines in {} seconds of CPU time'.format(
            count[0], CPU_MAX))
    finally:
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return count[0]


# -- running --------------------------------------------------------------

def run_case(workload, prop, seed, index, data=None):
    """Run one case, mapping crashes of the code under test to failures."""
    rng = random.Random('{}/{}/{}'.format(prop, seed, index))
    if data is None:
        data = workload.generate(rng, index)
        big = getattr(workload, 'magnify', 0)
        if big and 'files' in data and rng.random() < magnify.share(big):
            data['big'] = magnify.magnify(
                rng, data['files'], getattr(
                    workload, 'magnify_ops', magnify.OPS))
    case = Case(data)
    for what in data.get('big', ()):
        case.see('big:' + what)
    try:
        limited(workload.observe, case, data)
    except TooManySteps as e:
        case.fail('hang', 'does not finish: {}'.format(e))
    except Inconclusive:
        case.stats['inconclusive'] += 1
    except (Exception, SystemExit) as e:
        where = crash_site(e)
        if where is None:
            raise
        case.fail('crash:{}:{}'.format(type(root_cause(e)).__name__, where),
                  'uncaught {}'.format(
                      ''.join(traceback.format_exception_only(
                          type(e), e)).strip()) + '\n' +
                  ''.join(traceback.format_exc()[-1500:]))
    return case


def root_cause(e):
    while e.__cause__ is not None:
        e = e.__cause__
    return e


def crash_site(e):
    """The function in the code under test that raised, or None."""
    e = root_cause(e)
    site = None
    last = None
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + os.sep):
            site = '{}:{}'.format(
                os.path.relpath(fn, REPO), tb.tb_frame.f_code.co_name)
        last = fn
        tb = tb.tb_next
    if site is None:
        return None
    # If our own code raised below the code under test (an opener, a stub)
    # it is still a failure to deal with, unless it was a harness error.
    if last.startswith(VERIF + os.sep) and not getattr(
            e, 'injected', False):
        return None
    return site


def _worker(conn, module, prop, seed, tier, worker, todo, deadline, stop):
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        workload = module.Workload(tier, worker)
        stats = collections.Counter()
        kinds = collections.Counter()
        digests = set()
        failures = []
        samples = []
        for index in todo:
            if time.time() > deadline:
                stats['skipped_by_deadline'] += 1
                continue
            case = run_case(workload, prop, seed, index)
            stats['evaluations'] += 1
            stats.update(case.stats)
            kinds.update(case.kinds)
            if case.nontrivial:
                digests.add(digest(case.data))
            if len(samples) < 2 and case.nontrivial:
                samples.append(jsonable(case.data))
            for key, text in case.failures:
                failures.append((key, text, index, jsonable(case.data)))
            if len(failures) > 60 or any(
                    key == 'hang' for key, _ in case.failures):
                break
            if FAIL_FAST:
                if failures:
                    stop.set()
                if stop.is_set():
                    break
        if hasattr(workload, 'finish'):
            stats.update(workload.finish() or {})
        conn.send(('ok', stats, kinds, digests, failures, samples))
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    finally:
        conn.close()
    os._exit(0)


def run_check(module, seed, tier, workers=None, only=None):
    """Returns the exit code."""
    t0 = time.time()
    prop = module.PROPERTY
    plan = module.plan(tier)
    workers = workers or int(os.environ.get('RV_WORKERS', '0')) or min(
        8, os.cpu_count() or 1)
    deadline = t0 + plan.get('deadline', 240 if tier == 'quick' else 700)
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    if hasattr(module, 'prepare'):
        module.prepare(tier, seed)

    todo = list(range(int(plan['cases'] * SCALE)))
    if only is not None:
        todo = only
        workers = 1
    ctx = multiprocessing.get_context('fork')
    stop = ctx.Event()
    procs = []
    for w in range(workers):
        parent, child = ctx.Pipe(duplex=False)
        sys.stdout.flush()
        sys.stderr.flush()
        p = ctx.Process(target=_worker, args=(
            child, module, prop, seed, tier, w, todo[w::workers], deadline,
            stop))
        p.start()
        child.close()
        procs.append((p, parent))

    stats = collections.Counter()
    kinds = collections.Counter()
    digests = set()
    failures = []
    samples = []
    errors = []
    for p, conn in procs:
        try:
            ret = conn.recv()
        except EOFError:
            ret = ('error', 'worker died')
        p.join()
        if ret[0] == 'error':
            errors.append(ret[1])
            continue
        stats.update(ret[1])
        kinds.update(ret[2])
        digests |= ret[3]
        failures.extend(ret[4])
        samples.extend(ret[5])
    if hasattr(module, 'cleanup'):
        module.cleanup()

    # Known findings do not count, but they are mentioned.
    known = load_known(prop)
    fresh = []
    mentioned = set()
    for key, text, index, data in failures:
        for kkey, kdesc in known:
            if key == kkey:
                mentioned.add((kkey, kdesc))
                break
        else:
            fresh.append((key, text, index, data))
    for kkey, kdesc in sorted(mentioned):
        print('KNOWN-FINDING: property={} {} ({})'.format(prop, kdesc, kkey))

    # One replay per kind of failure.
    by_key = {}
    for key, text, index, data in sorted(
            fresh, key=(lambda x: (x[0], len(json.dumps(x[3])), x[2]))):
        by_key.setdefault(key, (text, index, data))
    for n, (key, (text, index, data)) in enumerate(sorted(by_key.items())):
        if n >= 10:
            print('... and {} more kinds of failure'.format(len(by_key) - n))
            break
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '{}-{}.json'.format(
            prop, hashlib.sha1(key.encode('utf-8', 'replace')
                               ).hexdigest()[:10]))
        with open(path, 'w') as fp:
            json.dump({'property': prop, 'seed': seed, 'tier': tier,
                       'index': index, 'key': key, 'text': text,
                       'data': data,
                       'replay': 'python3 -m rv.run {} --replay {}'.format(
                           prop, path)}, fp, indent=1)
        print('-- {}: {}'.format(key, text[:1500]))
        print('VIOLATION property={} replay={}'.format(prop, path))

    # Did the monitors see what they were built to see?
    missing = []
    for name, least in plan.get('min_events', {}).items():
        if stats[name] < least:
            missing.append('{}={} (want {})'.format(name, stats[name], least))
    for name in plan.get('kinds', ()):
        if not kinds[name]:
            missing.append('never observed {}'.format(name))

    coverage = {
        'evaluations': stats['evaluations'],
        'distinct_nontrivial': len(digests),
        'rule': module.RULE,
        'samples': samples[:6],
        'events': {k: v for k, v in sorted(stats.items())
                   if k != 'evaluations'},
        'distinct_kinds_observed': len(kinds),
        'kinds_observed': {k: v for k, v in sorted(kinds.items())[:400]},
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(by_key),
    }
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as fp:
        json.dump(evidence, fp, indent=1, sort_keys=True)
        fp.write('\n')

    print('{} {} seed={}: {} executions, {} distinct non-trivial, {} kinds of '
          'events, {:.1f}s'.format(
              prop, tier, seed, stats['evaluations'], len(digests),
              len(kinds), time.time() - t0))
    if by_key:
        return 1
    if errors:
        print('HARNESS ERROR:\n{}'.format(errors[0]), file=sys.stderr)
        return 2
    if only is None and SCALE == 1 and (
            missing or not stats['evaluations']):
        print('INCONCLUSIVE: {}'.format('; '.join(missing)), file=sys.stderr)
        return 3
    return 0
