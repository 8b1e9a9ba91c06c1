"""A process that runs some cases of other checks, in some order and under some
circumstances, and records everything that the library is seen to do: what each
call from outside returns or raises, which warnings it gives, and what commands print
and write. What the cases themselves decide does not matter here; the records of
several such processes are compared (see checks/c34.py).

usage: python -m vf.repro JOB OUT"""
import functools
import gc
import hashlib
import importlib
import inspect
import json
import os
import random
import re
import sys
import threading
import types
import warnings

MODULES = ['xigt', 'xigt.mixins', 'xigt.metadata', 'xigt.model', 'xigt.ref', 'xigt.query',
           'xigt.xigtpath', 'xigt.codecs.xigtxml', 'xigt.codecs.xigtjson',
           'xigt.exporters.latex', 'xigt.exporters.itsdb', 'xigt.importers.odin',
           'xigt.importers.toolbox', 'xigt.scripts.xigt_sort', 'xigt.scripts.xigt_partition',
           'xigt.scripts.xigt_query', 'xigt.scripts.xigt_validate', 'xigt.scripts.xigt_export',
           'xigt.scripts.xigt_import']
DUNDER = ('__getitem__', '__setitem__', '__delitem__', '__len__', '__eq__', '__ne__',
          '__contains__', '__init__')
KINDS = ('XigtCorpus', 'Igt', 'Tier', 'Item', 'Metadata', 'Meta', 'MetaChild')


def shift_time():
    """Let the clock be years ahead."""
    import datetime
    import time
    ahead = 3.3e7
    now, local, gm, strf = time.time, time.localtime, time.gmtime, time.strftime
    time.time = lambda: now() + ahead
    time.time_ns = lambda: int((now() + ahead) * 1e9)
    time.localtime = lambda s=None: local(now() + ahead if s is None else s)
    time.gmtime = lambda s=None: gm(now() + ahead if s is None else s)
    time.strftime = lambda f, t=None: strf(f, local(now() + ahead) if t is None else t)

    class Date(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(now() + ahead)

    class Datetime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(now() + ahead, tz)

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(now() + ahead)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(now() + ahead)
    datetime.date, datetime.datetime = Date, Datetime


class Recorder:
    """The calls that are made to the library from outside."""

    def __init__(self):
        self.inside = False
        self.events = []
        self.hash = hashlib.blake2b(digest_size=12)
        self.paths = []
        self.counts = {}
        self.origin = threading.get_ident()

    def reset(self, paths):
        self.paths = sorted(paths, key=len, reverse=True)

    def clean(self, s):
        for p in self.paths:
            s = s.replace(p, 'DIR')
        return re.sub(r'(?<=probe )[0-9a-f]{5,}|(?<= at )0x[0-9a-f]+|(?<= at )[0-9A-F]{8,}', 'ADDRESS', s)

    def add(self, name, what):
        self.counts[name] = self.counts.get(name, 0) + 1
        s = self.clean(what)
        h = hashlib.blake2b(s.encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()
        self.events.append([name, h, s[:400]])

    def describe(self, x, deep=2):
        from . import model
        if x is None or isinstance(x, (str, bytes, int, float, bool)):
            return repr(x)
        if isinstance(x, (list, tuple)):
            return '[%s]' % ', '.join(self.describe(y, deep - 1) for y in x)
        if isinstance(x, dict):
            return '{%s}' % ', '.join('%s: %s' % (self.describe(k, 0), self.describe(v, deep - 1))
                                      for k, v in x.items())
        if isinstance(x, (set, frozenset)):
            return 'set(%s)' % sorted(self.describe(y, 0) for y in x)
        if type(x).__name__ in KINDS and type(x).__module__.startswith('xigt'):
            if deep < 2 or getattr(x, 'mode', 'full') != 'full':
                return '<%s %r %r %r>' % (type(x).__name__, x.id, x.type, list(x.attributes.items()))
            return repr(model.snapshot(x))
        if isinstance(x, BaseException):
            return '%s: %s' % (type(x).__name__, x)
        return '<%s>' % type(x).__name__

    def note(self, name, result, caught):
        self.inside = True
        try:
            try:
                s = self.describe(result)
            except Exception as e:
                s = 'no description: ' + type(e).__name__
            for w in caught:
                if w.filename and os.sep + 'xigt' + os.sep in w.filename or \
                        'xigt' in getattr(w.category, '__module__', ''):
                    s += ' | %s: %s' % (w.category.__name__, w.message)
        finally:
            self.inside = False
        self.add(name, s)

    def generator(self, name, gen):
        """Yields what gen yields, and records it."""
        while True:
            free = not self.inside
            try:
                x = next(gen)
            except StopIteration:
                if free:
                    self.add(name, 'end')
                return
            except Exception as e:
                if free:
                    self.add(name, self.describe(e))
                raise
            if free:
                self.note(name, x, ())
            yield x

    def wrap(self, name, f):
        @functools.wraps(f)
        def wrapper(*args, **kw):
            if self.inside or threading.get_ident() != self.origin:
                return f(*args, **kw)
            self.inside = True
            try:
                with warnings.catch_warnings(record=True) as caught:
                    warnings.simplefilter('always')
                    r = f(*args, **kw)
            except Exception as e:
                self.inside = False
                self.note(name, e, ())
                raise
            finally:
                self.inside = False
            if isinstance(r, types.GeneratorType):
                return self.generator(name, r)
            self.note(name, r, caught)
            return r
        return wrapper

    def install(self):
        for m in MODULES:
            if m == 'xigt' or m.startswith('xigt.scripts'):
                continue
            mod = sys.modules[m]
            for k, v in list(vars(mod).items()):
                if k.startswith('_') or getattr(v, '__module__', None) != m:
                    continue
                if inspect.isfunction(v):
                    setattr(mod, k, self.wrap(m + '.' + k, v))
                elif inspect.isclass(v) and (v.__name__ in KINDS or 'Mixin' in v.__name__):
                    for n, f in list(vars(v).items()):
                        if inspect.isfunction(f) and (not n.startswith('_') or n in DUNDER):
                            setattr(v, n, self.wrap('%s.%s' % (v.__name__, n), f))


def main(job, out):
    with open(job) as f:
        job = json.load(f)
    if job['clock']:
        shift_time()
    from . import engine
    if engine.REPO not in sys.path[:1]:
        sys.path.insert(0, engine.REPO)
    stubs = os.path.join(engine.VERIF, 'stubs')
    sys.path.insert(1, stubs)
    for m in job['imports']:
        importlib.import_module(m)
    engine.check_target()
    for m in MODULES:
        importlib.import_module(m)
    from . import cli
    rec = Recorder()
    call = cli.call

    def recorded(command, args, process=False, cwd=None, limited=False):
        was, rec.inside = rec.inside, True
        try:
            r = call(command, args, False, cwd)
        except Exception as e:
            rec.inside = was
            rec.add('command ' + command, '%s: %s' % (type(e).__name__, e))
            raise
        finally:
            rec.inside = was
        rec.add('command ' + command, json.dumps([[str(a) for a in args], r.code, r.out, r.err]))
        files(rec)
        return r

    def files(rec):
        """Everything that is in the scratch directories"""
        for p, x in sorted(cli.tree(rec.scratch).items()):
            if x is not None and len(x) < 200000:
                rec.add('file', p + ' ' + x.decode('latin-1'))

    cli.call = recorded
    rec.install()
    checks = {}
    for pid in sorted({c[0] for c in job['cases']}):
        checks[pid] = importlib.import_module('vf.checks.' + pid.lower())
    for pid in sorted(checks):
        if hasattr(checks[pid], 'setup'):
            checks[pid].setup()
    if job['gc'] == 'off':
        gc.disable()
    elif job['gc'] == 'often':
        gc.set_threshold(60, 3, 3)
    results = []
    budget = engine.StepBudget()

    def work():
        rec.origin = threading.get_ident()
        for n in job['order']:
            pid, seed, i = job['cases'][n]
            check = checks[pid]
            case = check.generate(engine.case_rng(pid, seed, i), i, 'quick')
            rec.events = []
            mon = engine.Monitor()
            mon.budget = budget
            mon.tmp = rec.scratch = os.path.join(engine.SCRATCH, 'case.%d' % n)
            os.mkdir(mon.tmp)
            rec.reset([mon.tmp, engine.SCRATCH, os.path.realpath(os.getcwd())])
            # where something has been left must not matter, but with what seed: the same
            random.seed(n)
            try:
                check.run(case, mon)
                end = 'ok'
            except Exception as e:
                end = '%s: %s' % (type(e).__name__, e)
            files(rec)
            rec.add('end', end)
            engine.clean_scratch(mon.tmp)
            results.append([n, rec.events])
            rec.events = []
    if job['thread']:
        threading.stack_size(64 << 20)
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    with open(out, 'w') as f:
        json.dump({'results': results, 'counts': rec.counts,
                   'clean': len(results) == len(job['order'])}, f)


if __name__ == '__main__':
    main(*sys.argv[1:])
