"""Case engine: deterministic workloads, parallel workers, watchdogs,
coverage counters, replay files and evidence.

A check module defines
    ID, RULE, LEVEL (optional), CASES = {'quick': n, 'thorough': n}
    generate(rng, i, tier) -> JSON-serializable case
    run(case, mon)    -> raise Violation (or any exception) if the property is broken
    MIN_EVENTS = {'event name': minimum count}  (inconclusive below that; for quick)
"""
import faulthandler
import gc
import hashlib
import importlib
import json
import logging
import os
import random
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SCRATCH = os.environ.get('VF_SCRATCH') or tempfile.mkdtemp(prefix='vf.')
CASE_TIMEOUT = 100      # seconds of computation; a single case normally takes milliseconds
CASE_WAIT = 320         # seconds of waiting, when others use the processors
DEADLINE = {'quick': 780, 'thorough': 3 * 3600}


class Violation(Exception):
    """The observed behaviour breaks the property."""


class Inconclusive(Exception):
    """The harness itself could not do its job (never counted as a pass)."""


class BudgetExceeded(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def short(x, n=300):
    try:
        s = repr(x)
    except Exception as e:     # e.g. an item with an unresolvable reference
        s = '<%s without representation: %s>' % (type(x).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


# ---------------------------------------------------------------- monitors

class Coverage:
    """Lines of /repo executed (LINE events, disabled after the first hit)."""
    TOOL = 3

    def __init__(self):
        self.lines = set()
        self.prefix = os.path.join(REPO, 'xigt') + os.sep

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'vf-coverage')
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.LINE)

    def _line(self, code, line):
        if code.co_filename.startswith(self.prefix):
            self.lines.add((code.co_filename[len(self.prefix):], line))
        return sys.monitoring.DISABLE


class StepBudget:
    """Counts calls and backward jumps executed inside /repo, and stops a
    computation that exceeds its budget: termination is judged in logical
    steps, not in seconds."""
    TOOL = 4

    def __init__(self):
        self.prefix = os.path.join(REPO, 'xigt') + os.sep
        self.active = False
        self.steps = 0
        self.limit = 0
        self.ready = False
        self.max_steps = 0

    def _setup(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'vf-steps')
        m.register_callback(self.TOOL, m.events.PY_START, self._cb2)
        m.register_callback(self.TOOL, m.events.PY_RESUME, self._cb2)
        m.register_callback(self.TOOL, m.events.JUMP, self._cb3)
        self.ready = True

    def _count(self, code):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        self.steps += 1
        if self.active and self.steps > self.limit:
            self.active = False
            raise BudgetExceeded('%d logical steps' % self.steps)

    def _cb2(self, code, offset):
        return self._count(code)

    def _cb3(self, code, offset, dest):
        return self._count(code)

    def __call__(self, limit):
        if not self.ready:
            self._setup()
        self.limit = limit
        return self

    def __enter__(self):
        m = sys.monitoring
        self.steps = 0
        self.active = True
        m.set_events(self.TOOL, m.events.PY_START | m.events.PY_RESUME
                     | m.events.JUMP)
        return self

    def __exit__(self, *exc):
        self.active = False
        sys.monitoring.set_events(self.TOOL, 0)
        self.max_steps = max(self.max_steps, self.steps)
        return False


class Monitor:
    """What the monitors observed: event counts and distinct states."""

    def __init__(self):
        self.events = Counter()
        self.states = set()
        self.trivial = False
        self.budget = StepBudget()
        self.tmp = None

    def hit(self, name, n=1):
        self.events[name] += n

    def state(self, *key):
        h = hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'),
                            digest_size=8).digest()
        self.states.add(h)

    def terminates(self, fn, limit, what):
        try:
            with self.budget(limit):
                return fn()
        except BudgetExceeded as e:
            raise Violation('%s does not terminate (stopped after %s)'
                            % (what, e)) from None

    def scratch(self):
        """A fresh, empty scratch directory for this case."""
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='case.', dir=SCRATCH)
        return self.tmp


def clean_scratch(path):
    import shutil
    if path and os.path.realpath(path).startswith(
            os.path.realpath(SCRATCH) + os.sep):
        shutil.rmtree(path, ignore_errors=True)


# ---------------------------------------------------------------- running

def load_check(pid):
    return importlib.import_module('vf.checks.' + pid.lower())


def check_target():
    """Make sure that the code under test is the one in REPO."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import xigt
    if not os.path.realpath(xigt.__file__).startswith(
            os.path.realpath(REPO) + os.sep):
        raise Inconclusive('xigt is imported from ' + xigt.__file__)
    logging.disable(logging.NOTSET)
    logging.getLogger().setLevel(logging.CRITICAL)
    warnings.simplefilter('ignore')


def case_rng(pid, seed, i):
    return random.Random('%s:%s:%s' % (pid, seed, i))


def case_digest(case):
    return hashlib.blake2b(
        json.dumps(case, sort_keys=True, default=str).encode('utf-8', 'replace'),
        digest_size=8).digest()


def _used():
    t = os.times()
    return t.user + t.system + t.children_user + t.children_system


_started = [0, 0, 0]


def _on_alarm(signum, frame):
    used, waited = _used() - _started[0], time.monotonic() - _started[1]
    limit = _started[2]
    if used < limit and waited < CASE_WAIT:
        signal.alarm(max(1, min(int(limit - used), int(CASE_WAIT - waited))))
        return
    raise CaseTimeout('the case did not end within %d s' % limit)


def run_case(check, case, mon):
    """None, or a (kind, message) description of the violation."""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    limit = getattr(check, 'CASE_TIMEOUT', CASE_TIMEOUT)
    _started[:] = [_used(), time.monotonic(), limit]
    signal.alarm(limit)
    try:
        check.run(case, mon)
        return None
    except Inconclusive:
        raise
    except Violation as e:
        return ('violation', str(e))
    except (CaseTimeout, BudgetExceeded) as e:
        return ('no-termination', str(e))
    except MemoryError:
        raise Inconclusive('out of memory')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO + os.sep)]
        loc = where[-1] if where else tb[-1]
        return ('exception', '%s: %s (at %s:%d)\n%s' % (
            type(e).__name__, e, loc.filename, loc.lineno,
            ''.join(traceback.format_exc()[-3000:])))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if mon.tmp:
            clean_scratch(mon.tmp)
            mon.tmp = None


def worker(check, pid, tier, seed, indices, out_path, prog):
    faulthandler.enable()
    cov = Coverage()
    cov.start()
    mon = Monitor()
    res = {'evaluations': 0, 'violations': [], 'samples': []}
    digests = set()
    nontrivial = set()
    t0 = time.time()
    for i in indices:
        rng = case_rng(pid, seed, i)
        try:
            case = check.generate(rng, i, tier)
        except Inconclusive:
            raise
        prog.seek(0)
        prog.write('%-20d' % i)
        prog.flush()
        mon.trivial = False
        d = case_digest(case)
        text = json.dumps(case, default=str)      # running it may change it
        t1 = time.time()
        bad = run_case(check, case, mon)
        if os.environ.get('VF_DEBUG') and time.time() - t1 > 8:
            print('slow:', pid, seed, i, '%.1f s' % (time.time() - t1), flush=True)
        res['evaluations'] += 1
        digests.add(d)
        if not mon.trivial:
            nontrivial.add(d)
        if bad is not None:
            res['violations'].append({'case_index': i, 'kind': bad[0],
                                      'message': bad[1], 'case': json.loads(text)})
            if len(res['violations']) >= 3 or bad[0] == 'no-termination':
                break
        if len(res['samples']) < 2 and not mon.trivial:
            if len(text) < 3000:
                res['samples'].append(json.loads(text))
    res['events'] = dict(mon.events)
    res['states'] = [s.hex() for s in mon.states]
    res['distinct'] = [d.hex() for d in digests]
    res['nontrivial'] = [d.hex() for d in nontrivial]
    res['lines'] = sorted(cov.lines)
    res['max_steps'] = mon.budget.max_steps
    res['wall'] = time.time() - t0
    with open(out_path + '.tmp', 'w') as f:
        json.dump(res, f, default=str)
    os.rename(out_path + '.tmp', out_path)


def run_check(pid, tier, seed, jobs=None):
    t0 = time.time()
    check_target()
    check = load_check(pid)
    from . import known
    if hasattr(check, 'setup'):
        check.setup()
    n = int(os.environ.get('VF_CASES') or check.CASES[tier])
    jobs = jobs or int(os.environ.get('VF_JOBS') or min(8, os.cpu_count() or 1))
    jobs = max(1, min(jobs, n))
    gc.freeze()
    pids = {}
    outs = []
    progs = []
    for w in range(jobs):
        out = os.path.join(SCRATCH, 'out.%s.%d.json' % (pid, w))
        prog = open(os.path.join(SCRATCH, 'prog.%s.%d' % (pid, w)), 'w+')
        outs.append(out)
        progs.append(prog)
        sys.stdout.flush()
        sys.stderr.flush()
        child = os.fork()
        if child == 0:
            rc = 3
            try:
                worker(check, pid, tier, seed, range(w, n, jobs), out, prog)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        pids[child] = w
    deadline = t0 + DEADLINE[tier]
    problems = []
    died = []
    while pids:
        done, status = os.waitpid(-1, os.WNOHANG)
        if done:
            w = pids.pop(done)
            if status != 0:
                progs[w].seek(0)
                at = progs[w].read().strip()
                problems.append('worker %d ended with status %d at case %s'
                                % (w, status, at))
                died.append((w, status, at))
            continue
        if time.time() > deadline:
            for p in list(pids):
                os.kill(p, signal.SIGKILL)
            problems.append('time limit reached')
            deadline = float('inf')
        time.sleep(0.02)
    total = Counter()
    states, distinct, nontrivial, lines = set(), set(), set(), set()
    violations, samples = [], []
    evaluations = 0
    max_steps = 0
    for out in outs:
        if not os.path.exists(out):
            continue
        with open(out) as f:
            r = json.load(f)
        evaluations += r['evaluations']
        total.update(r['events'])
        states.update(r['states'])
        distinct.update(r['distinct'])
        nontrivial.update(r['nontrivial'])
        lines.update(map(tuple, r['lines']))
        violations.extend(r['violations'])
        samples.extend(r['samples'])
        max_steps = max(max_steps, r['max_steps'])
    # a worker that crashed the interpreter is an observation, too
    for w, status, at in died:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
                signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS):
            i = int(at or -1)
            case = check.generate(case_rng(pid, seed, i), i, tier) if i >= 0 else None
            violations.append({'case_index': i, 'kind': 'crash', 'case': case,
                               'message': 'the interpreter crashed (signal %d)'
                               % os.WTERMSIG(status)})
    violations.sort(key=lambda v: v['case_index'])
    unlisted, listed = known.split(pid, violations)
    if not violations and not problems:
        scale = 1.0 if not os.environ.get('VF_CASES') else 0
        for name, least in getattr(check, 'MIN_EVENTS', {}).items():
            if total[name] < least * scale:
                problems.append('only %d events "%s" observed (expected %d)'
                                % (total[name], name, least))
    by_file = Counter(f for f, _ in lines)
    coverage = {
        'evaluations': evaluations,
        'distinct_nontrivial': len(nontrivial),
        'rule': check.RULE,
        'samples': samples[:3],
        'distinct_cases': len(distinct),
        'distinct_states_observed': len(states),
        'events_observed': dict(sorted(total.items())),
        'repo_lines_executed': {f: n_ for f, n_ in sorted(by_file.items())},
    }
    if max_steps:
        coverage['max_logical_steps_in_one_bounded_call'] = max_steps
    if not coverage['samples']:
        coverage['samples'] = ['(all cases too large to print)']
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': getattr(check, 'LEVEL', 'exploration'),
        'coverage': coverage,
        'assumptions': list(getattr(check, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(unlisted),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    known.report(pid, listed)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d states, %.1f s'
          % (pid, tier, seed, evaluations, len(nontrivial), len(states),
             time.time() - t0))
    if unlisted:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        v = unlisted[0]
        path = os.path.join(VERIF, 'replays', '%s-%s-%d-%d.json'
                            % (pid, tier, seed, v['case_index']))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed, **v}, f,
                      indent=1, default=str)
        print(v['kind'] + ': ' + v['message'])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if problems:
        print('INCONCLUSIVE property=%s: %s' % (pid, '; '.join(problems)))
        return 2
    return 0


def replay(path):
    check_target()
    with open(path) as f:
        r = json.load(f)
    check = load_check(r['property'])
    if hasattr(check, 'setup'):
        check.setup()
    mon = Monitor()
    bad = run_case(check, r['case'], mon)
    if bad:
        print(bad[0] + ': ' + bad[1])
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    print('the case holds')
    return 0
