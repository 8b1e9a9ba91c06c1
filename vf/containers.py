"""A model of the containers: a plain list of objects, their ids, and who was
placed where last. Random histories of operations, valid and invalid, are
applied to the container and to the model, which are compared after each."""
from . import model
from .engine import Violation, require, short

KINDS = {   # container kind: (contained kind, ids?)
    'corpus': ('igt', True), 'igt': ('tier', True), 'tier': ('item', True),
    'metadata-of': ('metadata', True), 'metadata': ('meta', True), 'meta': ('mc', False),
    'mc': ('mc', False),
}
POOL = ['a', 'a1', 'a10', 'a1.b', 'b', 'b-1', 'c_2', 'e1', 'Z', 'item1', 'x1', 'x11',
        'y', 'i0']
VALID = ('append', 'append', 'append', 'insert', 'insert', 'extend', 'iadd', 'set', 'setneg',
         'setstr', 'del', 'delid', 'delslice', 'remove', 'pop', 'popi', 'clear', 'sort', 'sortid',
         'reverse', 'assign', 'assignself', 'assignnone', 'add', 'add_list', 'rename', 'swapids',
         'extendgen', 'setself', 'iaddself', 'refresh', 'move', 'slice-get', 'lookup',
         'stale-clear', 'stale-pop')
INVALID = ('!append-dup', '!append-type', '!insert-dup', '!insert-type', '!insert-index',
           '!extend-dup', '!extend-type', '!extend-twice', '!iadd-dup', '!set-dup', '!set-type',
           '!set-range', '!set-key', '!del-missing', '!del-range', '!remove-missing',
           '!pop-range', '!assign-dup', '!assign-type', '!pop-empty', '!assign-one', '!add-dup',
           '!set-none', '!extend-none', '!remove-type', '!extend-container')


def generate(rng, i, invalid, steps):
    ops = []
    for _ in range(rng.randint(3, steps)):
        op = rng.choice(INVALID if rng.random() < invalid else VALID)
        ops.append([op, rng.randint(0, 999), rng.randint(0, 999), rng.randint(0, 999)])
    return {'kind': rng.choice(list(KINDS)), 'start': rng.choice([0, 0, 1, 2, 4, 7]),
            'noid': rng.choice([0, 0, .2, .6]), 'ops': ops, 'seed': rng.randint(0, 10 ** 9),
            'equal': rng.random() < .25}


class Driver:
    def __init__(self, case, mon, deep):
        import random
        self.case, self.mon, self.deep = case, mon, deep
        self.rng = random.Random(case['seed'])
        self.cls = model.classes()
        self.kind = case['kind']
        self.ckind, self.ids = KINDS[self.kind]
        self.n = 0
        self.owner, self.c = self.container()
        self.other_owner, self.other = self.container()
        self.L = []            # the model: the objects, in order
        self.D = {}            # the model: id -> object, as of the last refresh
        self.home = {}         # id(object) -> owner it was placed in last
        self.keep = []         # keep all objects alive, so that id() is unique
        self.trace = []
        for o in self.fresh(case['start']):
            self.c.append(o)
            self.placed(o)
            self.L.append(o)
            if o.id is not None:
                self.D[o.id] = o

    def container(self):
        k = 'igt' if self.kind == 'metadata-of' else self.kind
        self.n += 1
        attrs = {'cid': 'c%d' % self.n}
        o = self.cls[k](*(['root'] if k == 'mc' else []), attributes=attrs,
                        nsmap={'pre': 'urn:%d' % self.n})
        return o, (o.metadata if self.kind == 'metadata-of' else o)

    def new(self, wrong=False, noid=None, dup=None):
        self.n += 1
        k = self.ckind
        if wrong:
            k = self.rng.choice([x for x in self.cls if x != k])
        cls = self.cls[k]
        if k == 'mc':
            o = cls('e%d' % (1 if self.case['equal'] else self.n))
        else:
            i = dup
            if i is None and not (self.rng.random() < self.case['noid']) and not noid:
                free = [x for x in POOL if x not in self.D] or ['n%d' % self.n]
                i = self.rng.choice(free)
            o = cls(id=i)
            if not self.case['equal']:
                o.attributes['n'] = str(self.n)
        self.keep.append(o)
        return o

    def fresh(self, n):
        """n new objects with different ids"""
        r, used = [], set()
        for _ in range(n):
            o = self.new()
            while o.id is not None and o.id in used:
                self.n += 1
                o.id = 'n%d' % self.n
            used.add(o.id)
            r.append(o)
        return r

    def placed(self, *objs):
        for o in objs:
            self.home[id(o)] = self.owner

    def reindex(self):
        self.D = {o.id: o for o in self.L if o.id is not None}

    # -- one step

    def step(self, op):
        name, a, b, x = op
        self.trace.append(op)
        if name.startswith('!'):
            self.invalid(name[1:], a, b, x)
        else:
            self.valid(name, a, b, x)
        self.compare()
        self.mon.hit(name)
        self.mon.state(self.kind, name, min(len(self.L), 5), len(self.D) == len(self.L))

    def valid(self, name, a, b, x):
        c, L = self.c, self.L
        n = len(L)
        if name in ('append', 'add'):
            o = self.new()
            r = c.append(o) if name == 'append' else c.add(o)
            require(r is None, '{} returns {}', name, short(r))
            L.append(o)
            self.placed(o)
        elif name == 'insert':
            o = self.new()
            i = [a % (n + 1), -(a % (n + 2)), a % (n + 1) + 3, -n - 5][b % 4 if x % 3 == 0 else 0]
            c.insert(i, o)
            L.insert(i, o)
            self.placed(o)
        elif name in ('extend', 'add_list', 'extendgen', 'iadd'):
            objs = self.fresh(a % 4)
            if name == 'extend':
                c.extend([list, tuple, iter, reversed][b % 3](objs))
            elif name == 'add_list':
                c.add_list(objs)
            elif name == 'extendgen':
                c.extend(o for o in objs)
            else:
                before = c
                c += objs if b % 2 else iter(objs)
                require(c is before, '+= gives another object')
            L.extend(objs)
            self.placed(*objs)
        elif name == 'iaddself':
            # objects computed from the current content
            objs = self.fresh(n)
            it = iter(objs)
            c.extend(next(it) for _ in list(c))
            L.extend(objs)
            self.placed(*objs)
        elif name in ('set', 'setneg', 'setstr', 'setself'):
            if not n:
                return
            i = a % n
            old = L[i]
            if name == 'setself':
                o = old
            elif b % 3 == 0 and old.id is not None:
                o = self.new(dup=old.id)   # the same id as the one replaced
            else:
                o = self.new()
            key = {'setneg': i - n, 'setstr': str(i)}.get(name, i)
            c[key] = o
            L[i] = o
            self.placed(o)
        elif name == 'del':
            if n:
                i = a % (2 * n) - n
                del c[i]
                del L[i]
        elif name == 'delid':
            ids = [o.id for o in L if o.id is not None]
            if ids:
                i = ids[a % len(ids)]
                del c[i]
                del L[next(k for k, o in enumerate(L) if o is self.D[i])]
        elif name == 'delslice':
            s = slice([None, a % (n + 2), -(a % (n + 2))][b % 3],
                      [None, x % (n + 2), -(x % (n + 2))][a % 3], [None, 1, 2, -1][x % 4])
            del c[s]
            del L[s]
        elif name == 'remove':
            if n:
                o = L[a % n]
                i = next(k for k, y in enumerate(L) if y is o or y == o)
                c.remove(o)
                del L[i]
        elif name in ('pop', 'popi'):
            if n:
                i = -1 if name == 'pop' else a % (2 * n) - n
                r = c.pop() if name == 'pop' else c.pop(i)
                require(r is L[i], 'pop({}) returns another object', i)
                del L[i]
        elif name == 'clear':
            if b % 4 == 0:
                c.clear()
                L.clear()
        elif name == 'sort':
            key = {id(o): self.rng.randint(0, 3) for o in L}
            c.sort(key=lambda o: key[id(o)], reverse=bool(b % 2))
            L.sort(key=lambda o: key[id(o)], reverse=bool(b % 2))
        elif name == 'sortid':
            c.sort(key=lambda o: o.id or '')
            L.sort(key=lambda o: o.id or '')
        elif name == 'reverse':
            c.reverse()
            L.reverse()
        elif name == 'assign':
            objs = self.fresh(a % 5)
            if b % 2 and n:
                # some of the old ones, too
                used = set(o.id for o in objs if o.id is not None)
                old = [o for o in L if o.id is None or o.id not in used]
                seen, keep = set(), []
                for o in old[:x % (n + 1)]:
                    if id(o) not in seen:
                        keep.append(o)
                        seen.add(id(o))
                objs = keep + objs
            self.assign([list, iter, tuple][x % 3](objs))
            self.L = list(objs)
            self.placed(*objs)
        elif name == 'assignself':
            # computed lazily from the current content
            k = a % 3
            if k == 0:
                self.assign(o for i, o in enumerate(c) if i % 2 == 0)
                self.L = L[::2]
            elif k == 1:
                self.assign(reversed(c))
                self.L = L[::-1]
            else:
                self.assign(c)
            self.placed(*self.L)
        elif name == 'assignnone':
            if b % 5 == 0:
                self.assign(None if a % 2 else [])
                self.L = []
        elif name == 'rename':
            if n and self.ids:
                o = L[a % n]
                self.n += 1
                o.id = [None, 'n%d' % self.n, 'N.%d' % self.n][b % 3]
                self.refresh()
        elif name == 'stale-clear':
            # renamed without a refresh, and then everything is replaced: what
            # the index remembers must be the new content only
            if n and self.ids:
                for o in L[a % n:][:1 + x % 3]:
                    self.n += 1
                    o.id = [None, 'n%d' % self.n, 'N.%d' % self.n][b % 3]
                if a % 4 == 0:
                    os_ = [o for o in L if o.id is not None]
                    if len(os_) > 1:
                        os_[0].id, os_[-1].id = os_[-1].id, os_[0].id
                if x % 2:
                    c.clear()
                    self.L = []
                else:
                    old = list(self.D)
                    self.D = {}
                    objs = self.fresh(b % 4)
                    for o in objs:      # the ids of before are free again
                        if o.id is not None and old and self.rng.random() < .6:
                            i = old.pop()
                            if all(y.id != i for y in objs):
                                o.id = i
                    self.assign(iter(objs) if a % 2 else objs)
                    self.L = objs
                    self.placed(*objs)
        elif name == 'stale-pop':
            # one takes the id of another and is then removed (without a
            # refresh in between): the other is still there, under its id
            os_ = [o for o in L if o.id is not None]
            if len(os_) >= 2:
                p, q = os_[a % len(os_)], os_[b % len(os_)]
                if p is not q:
                    p.id = q.id
                    i = next(k for k, o in enumerate(L) if o is p)
                    if x % 3 == 0:
                        del c[i]
                    elif x % 3 == 1:
                        c.pop(i - n)
                    else:
                        c.pop(i)
                    del L[i]
                    require(c.get(q.id) is q and c[q.id] is q, 'after another object with the '
                            'id {} was removed, it finds {}', q.id, short(c.get(q.id)))
                    self.refresh()
        elif name == 'swapids':
            os_ = [o for o in L if o.id is not None]
            if len(os_) >= 2:
                p, q = os_[a % len(os_)], os_[b % len(os_)]
                p.id, q.id = q.id, p.id
                self.refresh()
        elif name == 'refresh':
            self.refresh()
        elif name == 'move':
            if n:
                o = L[a % n]
                if o.id is None or self.other.get(o.id) is None:
                    self.other.append(o)
                    self.home[id(o)] = self.other_owner
        elif name == 'slice-get':
            s = slice([None, a % (n + 2), -(a % (n + 2))][b % 3], [None, x % (n + 2)][a % 2],
                      [None, 2, -1][x % 3])
            r = c[s]
            require(len(r) == len(L[s]) and all(p is q for p, q in zip(r, L[s])),
                    'slice {} gives other objects', s)
        elif name == 'lookup':
            if n:
                i = a % (2 * n) - n
                require(c[i] is L[i] and c.get(i) is L[i], 'position {} holds another object', i)
                if i >= 0:
                    require(c[str(i)] is L[i], 'position "{}" holds another object', i)
                o = L[i]
                k = c.index(o)
                require(L[k] == o and not any(y == o for y in L[:k]), 'index() is wrong')
                require(o in c and c.count(o) == sum(1 for y in L if y == o),
                        'membership is wrong')
        if name not in ('rename', 'swapids', 'refresh', 'move', 'slice-get', 'lookup'):
            self.reindex()

    def assign(self, objs):
        if self.kind == 'metadata-of':
            self.owner.metadata = objs
            self.c = self.owner.metadata
        else:
            setattr(self.owner, model.KIDS[self.kind], objs)

    def refresh(self):
        if self.kind == 'igt' and self.n % 2:
            self.c.refresh_indices(tiers=True)
        else:
            self.c.refresh_index()
        self.reindex()

    def invalid(self, name, a, b, x):
        c, L = self.c, self.L
        n = len(L)
        ids = [i for i in self.D]
        offered, what = [], None
        dup = ids[a % len(ids)] if ids else None
        missing = ['nope', 'zz9', 'A', 'a1x', '', 'x', '9x', 'item'][b % 8]
        if missing in self.D:
            return
        call = None
        if name in ('append-dup', 'add-dup', 'insert-dup', 'extend-dup', 'iadd-dup',
                    'assign-dup', 'set-dup', 'extend-twice') and not self.ids:
            return
        if name in ('append-dup', 'add-dup', 'insert-dup'):
            if dup is None:
                return
            o = self.new(dup=dup) if b % 2 else self.D[dup]
            offered = [o]
            if name == 'append-dup':
                call = lambda: c.append(o)
            elif name == 'add-dup':
                call = lambda: c.add(o)
            else:
                call = lambda: c.insert(x % (n + 1), o)
        elif name in ('append-type', 'insert-type'):
            o = self.wrong(a)
            offered = [o]
            call = (lambda: c.append(o)) if name == 'append-type' else \
                (lambda: c.insert(x % (n + 1), o))
        elif name == 'insert-index':
            o = self.new()
            offered = [o]
            bad = ['a', None, 1.5, '0', [1]][a % 5]
            call = lambda: c.insert(bad, o)
        elif name in ('extend-dup', 'iadd-dup', 'extend-type', 'extend-twice', 'extend-none',
                      'extend-container'):
            objs = self.fresh(1 + a % 3)
            k = b % (len(objs) + 1)
            if name in ('extend-dup', 'iadd-dup'):
                if dup is None:
                    return
                objs.insert(k, self.new(dup=dup) if x % 2 else self.D[dup])
            elif name == 'extend-type':
                objs.insert(k, self.wrong(x))
            elif name == 'extend-twice':
                w = next((o for o in objs if o.id is not None), None)
                if w is None:
                    return
                objs.append(self.new(dup=w.id) if x % 2 else w)
            elif name == 'extend-none':
                objs = [None, 5, self.new(wrong=True)][a % 3]
                if a % 3 == 2 and (hasattr(objs, '__iter__')):
                    return
            elif name == 'extend-container':
                if not ids:
                    return
                objs = c      # all of them a second time
            if isinstance(objs, list):
                offered = list(objs)
            how = x % 3
            if name == 'iadd-dup':
                def call():
                    d = c
                    d += objs
            elif how == 0 or not isinstance(objs, list):
                call = lambda: c.extend(objs)
            elif how == 1:
                call = lambda: c.extend(iter(objs))
            else:
                call = lambda: c.extend(o for o in objs)
        elif name in ('set-dup', 'set-type', 'set-range', 'set-key', 'set-none'):
            if name != 'set-range' and n == 0:
                return
            i = a % n if n else 0
            if name == 'set-dup':
                others = [o for o in L if o.id is not None and o is not L[i]
                          and o.id != L[i].id]
                if not others:
                    return
                w = others[b % len(others)]
                o = self.new(dup=w.id) if x % 2 else w
                key = [i, i - n, str(i)][x % 3]
            elif name in ('set-type', 'set-none'):
                o = self.wrong(b) if name == 'set-type' else None
                key = i
            elif name == 'set-range':
                o = self.new()
                key = [n, n + 3, -n - 1, str(n)][b % 4]
            else:
                o = self.new()
                key = [missing, 'nope', None, 1.5][b % 4]
                if isinstance(key, float):
                    key = 'x'
            offered = [] if o is None else [o]

            def call():
                c[key] = o
        elif name == 'del-missing':
            def call():
                del c[missing]
        elif name == 'del-range':
            key = [n, -n - 1, n + 7, str(n)][a % 4]

            def call():
                del c[key]
        elif name == 'remove-missing':
            o = self.new()
            if any(y == o for y in L):
                return
            call = lambda: c.remove(o)
        elif name == 'remove-type':
            o = self.wrong(a)
            call = lambda: c.remove(o)
        elif name == 'pop-range':
            call = lambda: c.pop([n, -n - 1, n + 9][a % 3])
        elif name == 'pop-empty':
            if n:
                return
            call = lambda: c.pop()
        elif name in ('assign-dup', 'assign-type'):
            objs = self.fresh(1 + a % 3)
            if name == 'assign-type':
                objs.insert(b % (len(objs) + 1), self.wrong(x))
            else:
                w = next((o for o in objs if o.id is not None), None)
                if w is None:
                    return
                objs.insert(b % (len(objs) + 1), self.new(dup=w.id) if x % 2 else w)
            offered = list(objs)
            if x % 3 == 0:
                objs = iter(objs)
            call = lambda: self.assign(objs)
        elif name == 'assign-one':
            if self.kind != 'metadata-of':
                return
            o = self.new()
            offered = [o]
            call = lambda: setattr(self.owner, 'metadata', o)
        if call is None:
            return
        parents = [(o, self.parents(o)) for o in offered]
        content = self.content() if self.deep else None
        try:
            call()
        except Exception as e:
            self.mon.state(self.kind, name, type(e).__name__)
        else:
            raise Violation('after %s: %s is accepted' % (self.trace[-8:], name))
        for o, p in parents:
            require(self.parents(o) == p, 'after {}: the parent of an object changed although it '
                    'was rejected', self.trace[-8:])
        if self.deep:
            require(self.content() == content, 'after {}: the rejected operation changed '
                    'the content', self.trace[-8:])
        self.mon.hit('rejected')

    def wrong(self, a):
        return [None, 'text', 5, {}, [], object()][a // 3 % 6] if a % 3 == 0 else \
            self.new(wrong=True)

    def parents(self, o):
        """Which of the owners does it belong to? (as seen from outside)"""
        if not hasattr(o, 'attributes'):
            return None
        saved = o.attributes.pop('cid', None)
        try:
            return (o.get_attribute('cid', inherit=True), o.nsmap.get('pre'))
        finally:
            if saved is not None:
                o.attributes['cid'] = saved

    def content(self):
        return [(id(o), o.id, getattr(o, 'type', None), sorted(o.attributes.items()),
                 self.parents(o)) for o in self.c]

    # -- the comparison

    def compare(self):
        c, L, t = self.c, self.L, self.trace[-8:]
        got = list(c)
        require(len(got) == len(L) and all(p is q for p, q in zip(got, L)),
                'after {}: the container holds {}, not {}', t, [self.name(o) for o in got],
                [self.name(o) for o in L])
        require(len(c) == len(L) and bool(c) == bool(L), 'after {}: len() is {}', t, len(c))
        for i in (0, len(L) // 2, len(L) - 1) if L else ():
            require(c[i] is L[i], 'after {}: position {} holds another object', t, i)
            require(c[i - len(L)] is L[i], 'after {}: position {} holds another object', t,
                    i - len(L))
        for i in (len(L), -len(L) - 1):
            try:
                c[i]
            except IndexError:
                pass
            else:
                raise Violation('after %s: position %d exists' % (t, i))
            require(c.get(i) is None, 'after {}: position {} exists', t, i)
        if self.kind != 'metadata-of':
            prop = getattr(self.owner, model.KIDS[self.kind])
            require(len(prop) == len(L) and all(p is q for p, q in zip(prop, L)),
                    'after {}: the property {} differs', t, model.KIDS[self.kind])
        d = object()
        for i in POOL + list(self.D) + ['nope', 'n%d' % self.n]:
            if i in self.D:
                require(c[i] is self.D[i], 'after {}: id {} finds another object', t, i)
                require(c.get(i) is self.D[i] and c.get(i, d) is self.D[i],
                        'after {}: get({}) finds another object', t, i)
            else:
                try:
                    r = c[i]
                except KeyError:
                    pass
                else:
                    raise Violation('after %s: id %s is not contained, but finds %s'
                                    % (t, i, self.name(r)))
                require(c.get(i) is None and c.get(i, d) is d,
                        'after {}: id {} is not contained, but found', t, i)
        if self.deep:
            for o in L:
                home = self.home.get(id(o))
                require(model.is_parent(home, o), 'after {}: {} does not report the container it '
                        'was placed in last', t, self.name(o))
                require(o.nsmap.get('pre') == home.nsmap['pre'],
                        'after {}: {} does not inherit the prefixes', t, self.name(o))

    def name(self, o):
        return '%s %s' % (model.kind(o), getattr(o, 'id', None))


def run(case, mon, deep):
    d = Driver(case, mon, deep)
    d.compare()
    for op in case['ops']:
        d.step(op)
    mon.hit('operations', len(case['ops']))
