"""A deterministic scheduler: threads run one at a time, and the baton changes
hands at lines of the code under test, as a seeded generator decides: every few
lines, or (given a line count) once, when the first thread has come that far."""
import sys
import threading

from .engine import REPO, Inconclusive

TOOL = 2
PREFIX = REPO + '/xigt/'


class Interleaver:
    ready = False

    def __init__(self, rng, gap, at=None, record=False):
        self.rng, self.gap, self.at = rng, gap, at
        self.locations = [] if record else None
        self.switches = 0
        self.trace = []
        self.lines = 0

    def run(self, tasks):
        """Run the tasks (functions) interleaved; [('ok', result) or ('error', exc)]"""
        n = len(tasks)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.results = [None] * n
        self.ids = {}
        self.done = threading.Event()
        self.stuck = False
        self.countdown = self.rng.randint(1, self.gap)
        m = sys.monitoring
        if not Interleaver.ready:
            m.use_tool_id(TOOL, 'vf-interleave')
            Interleaver.ready = True
        m.register_callback(TOOL, m.events.LINE, self.line)
        threads = [threading.Thread(target=self.body, args=(k, t), daemon=True)
                   for k, t in enumerate(tasks)]
        m.set_events(TOOL, m.events.LINE)
        try:
            for t in threads:
                t.start()
            self.sems[self.rng.randrange(n) if self.at is None else 0].release()
            if not self.done.wait(80) or self.stuck:
                raise Inconclusive('the threads are stuck')
            for t in threads:
                t.join(10)
        finally:
            m.set_events(TOOL, 0)
        return self.results

    def body(self, k, task):
        self.sems[k].acquire()
        self.ids[threading.get_ident()] = k
        try:
            self.results[k] = ('ok', task())
        except BaseException as e:
            self.results[k] = ('error', e)
        finally:
            del self.ids[threading.get_ident()]
            self.alive.remove(k)
            if self.alive:
                self.sems[self.rng.choice(self.alive)].release()
            else:
                self.done.set()

    def line(self, code, line):
        if not code.co_filename.startswith(PREFIX):
            return sys.monitoring.DISABLE
        k = self.ids.get(threading.get_ident())
        if k is None:
            return
        self.lines += 1
        if self.locations is not None:
            self.locations.append((code.co_filename, code.co_name, line))
        if self.at is not None:
            if k != 0 or self.switches:
                return
            self.at -= 1
            if self.at > 0:
                return
        else:
            self.countdown -= 1
            if self.countdown > 0:
                return
            self.countdown = self.rng.randint(1, self.gap)
        others = [x for x in self.alive if x != k]
        if not others:
            return
        x = self.rng.choice(others)
        self.switches += 1
        if len(self.trace) < 400:
            self.trace.append((k, x, code.co_name, line))
        self.sems[x].release()
        if not self.sems[k].acquire(timeout=70):
            self.stuck = True
            self.done.set()
