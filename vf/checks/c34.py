"""C34: what is done depends on what is given, and on nothing else."""
import json
import os
import shutil
import subprocess
import sys

from .. import engine
from ..engine import REPO, VERIF, Inconclusive, require, short
from ..repro import MODULES

ID = 'C34'
RULE = ('a case is a list of cases of other checks, which are run in several processes that differ '
        'in their order, hash seeds, directories, environment, clocks, imports, optimization, '
        'allocation, garbage collection and threads; everything that the library is seen to '
        'return, raise, warn, print or write in one of them is compared with the others; '
        'non-trivial: there is something to compare')
CASES = {'quick': 200, 'thorough': 3000}
MIN_EVENTS = {'processes': 580, 'compared calls': 200000, 'compared commands': 1000,
              'compared files': 5000, 'repeated': 1000}
ASSUMPTIONS = ['The readers of Toolbox and ODIN files, and the writer of [incr tsdb()] profiles, '
               'are not installed: stand-ins are used.',
               'Addresses of objects within messages do not count.']
WEIGHTS = {'C01': 3, 'C02': 2, 'C03': 3, 'C04': 2, 'C05': 2, 'C07': 2, 'C08': 1, 'C09': 2, 'C10': 2,
           'C11': 2, 'C12': 3, 'C13': 3, 'C14': 3, 'C15': 3, 'C16': 1, 'C17': 1, 'C18': 2, 'C20': 4,
           'C21': 4, 'C22': 4, 'C23': 4, 'C24': 4, 'C25': 3, 'C26': 3, 'C27': 3, 'C29': 1, 'C30': 2}


def generate(rng, i, tier):
    pids = [p for p, w in sorted(WEIGHTS.items()) for _ in range(w)]
    cases = [[rng.choice(pids), 1000 + rng.randint(0, 10 ** 6), rng.randint(0, 10 ** 5)]
             for _ in range(rng.choice([20, 40]))]
    procs = []
    for k in range(3):
        order = list(range(len(cases)))
        if k:
            rng.shuffle(order)
            for n in rng.sample(order, 6):
                order.insert(rng.randint(0, len(order)), n)
        imports = list(MODULES)
        if k:
            rng.shuffle(imports)
        procs.append({
            'order': order, 'imports': imports[:rng.randint(0, len(imports))] if k else [],
            'hash': str(rng.randint(1, 4 * 10 ** 9)) if k else '0',
            'clock': bool(k) and rng.random() < .5,
            'gc': rng.choice(['', '', 'off', 'often']) if k else '',
            'thread': bool(k) and rng.random() < .2,
            'flags': rng.choice([[], [], ['-O'], ['-OO'], ['-X', 'dev']]) if k else [],
            'dir': rng.choice(['w', 'a b', 'é', 'x' * 50, 'w/deep/er']) if k else 'w',
            'env': {} if not k else {
                x: rng.choice(v) for x, v in {
                    'TZ': ['UTC', 'Asia/Tokyo', 'XXX-13'], 'HOME': ['/', '/nowhere', '.'],
                    'USER': ['', 'somebody'], 'LANG': ['C.UTF-8', 'ja_JP.UTF-8', 'tr_TR.UTF-8'],
                    'LC_ALL': ['C.UTF-8', 'en_US.UTF-8', 'tr_TR.UTF-8'], 'PYTHONUTF8': ['1'],
                    'TERM': ['dumb', 'xterm-256color'], 'PYTHONMALLOC': ['pymalloc', 'malloc', 'debug'],
                    'LINES': ['3'], 'NO_COLOR': ['1'], 'XIGT': ['x'], 'DEBUG': ['1']}.items()
                if rng.random() < .6}})
    return {'cases': cases, 'procs': procs}


def start(case, p, d, k):
    home = os.path.join(d, '%d' % k, p['dir'])
    os.makedirs(home)
    # the names of files are given: they are the same in all processes
    scratch = os.path.join(d, 's')
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    job = os.path.join(d, 'job%d' % k)
    with open(job, 'w') as f:
        json.dump(dict(p, cases=case['cases']), f)
    env = {x: v for x, v in os.environ.items() if x in ('PATH', 'LC_ALL', 'VF_REPO')}
    env.update(p['env'], PYTHONHASHSEED=p['hash'], PYTHONPATH=VERIF, VF_SCRATCH=scratch,
               PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', VF_REPO=REPO)
    with open(os.path.join(d, 'err%d' % k), 'w') as err:
        return subprocess.Popen([sys.executable, '-B'] + p['flags'] + [
            '-X', 'pycache_prefix=' + os.path.join(engine.SCRATCH, 'pyc'),
            '-m', 'vf.repro', job, os.path.join(d, 'out%d' % k)],
            env=env, cwd=home, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err)


def run(case, mon):
    d = mon.scratch()
    ps = []
    try:
        for k, p in enumerate(case['procs']):
            ps.append(start(case, p, d, k))
            # one after another: the engine decides about how many run at once
            ps[-1].wait(90)
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
    base = {}
    for k, p in enumerate(case['procs']):
        out = os.path.join(d, 'out%d' % k)
        if not os.path.exists(out):
            with open(os.path.join(d, 'err%d' % k)) as f:
                err = f.read()
            raise Inconclusive('process %d ended with %s: %s' % (k, ps[k].returncode, err[-1500:]))
        with open(out) as f:
            r = json.load(f)
        mon.hit('processes')
        require(r['clean'], 'process {} did not come to its end', k)
        seen = set()
        for n, events in r['results']:
            if n in seen:
                mon.hit('repeated')
            seen.add(n)
            for e in events:
                name = e[0]
                mon.hit('compared commands' if name.startswith('command') else
                        'compared files' if name == 'file' else 'compared calls')
            if n not in base:
                base[n] = events
                mon.state(case['cases'][n][0], *[e[1] for e in events[-3:]])
                continue
            compare(case, n, p, base[n], events)
    mon.trivial = not any(base.values())


def compare(case, n, p, a, b):
    how = {x: p[x] for x in ('hash', 'clock', 'gc', 'thread', 'flags', 'dir', 'env')}
    before = p['order'][:p['order'].index(n)]
    what = 'a case of {} (seed {}, index {})'.format(*case['cases'][n])
    for x, y in zip(a, b):
        if x[:2] == y[:2]:
            continue
        require(False, '{}: {} does or gives something else in another process ({}, after {} other '
                'cases):\n{}\nbefore:\n{}', what, y[0], how, len(before), around(x[2], y[2])[1],
                '%s %s' % (x[0], around(x[2], y[2])[0]))
    require(len(a) == len(b), '{}: {} calls in one process, {} in another ({})', what, len(a),
            len(b), how)


def around(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return a[max(0, k - 200):k + 200], b[max(0, k - 200):k + 200]
