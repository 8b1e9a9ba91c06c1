"""XigtPaths: generation of syntax trees, their text, and what they denote.

A path is {'abs': '' | '/', 'steps': [step]}, a step is
{'axis': child|desc|attr|up|self|func|group, 'test': name, 'args': [...],
 'paths': [...], 'preds': [pred]}, and a pred {'path', 'op': None|'='|'!=', 'val'}."""
from . import refmodels
from .gen import REFATTRS

ALL = ('corpus', 'igt', 'tier', 'item', 'metadata', 'meta', 'mc')
UP = {'corpus': (), 'igt': ('corpus',), 'tier': ('igt',), 'item': ('tier',),
      'metadata': ('corpus', 'igt', 'tier'), 'meta': ('metadata',), 'mc': ('meta', 'mc'),
      'str': ()}
DOWN = {'corpus': 'igt', 'igt': 'tier', 'tier': 'item', 'metadata': 'meta', 'meta': 'mc',
        'mc': 'mc', 'item': None, 'str': None}


def pairs(specs, objs):
    return [(n, None) for n in specs] if objs is None else zip(specs, objs)


class Doc:
    """A corpus spec with parents and the objects that correspond to its nodes."""

    def __init__(self, spec, obj=None):
        self.root = spec
        self.parent, self.obj, self.nodes, self.node_of = {}, {}, [], {}
        self.igt = {}
        self._add(spec, None, obj, None)
        self.mcnames = sorted(set(n['name'] for n in self.nodes if n['k'] == 'mc'))
        self.attrnames = sorted(set(a for n in self.nodes for a in n['attrs']))
        self._values = {}

    def _add(self, n, parent, obj, igt):
        self.nodes.append(n)
        self.parent[id(n)] = parent
        if obj is not None:
            self.obj[id(n)] = obj
            self.node_of[id(obj)] = n
        if n['k'] == 'igt':
            igt = n
        self.igt[id(n)] = igt
        if n['k'] in ('corpus', 'igt', 'tier'):
            for x, o in pairs(n.get('md') or [], None if obj is None else obj.metadata):
                self._add(x, n, o, igt)
        if n['k'] != 'item':
            for x, o in pairs(n.get('ch') or [], obj):
                self._add(x, n, o, igt)

    def value(self, n):
        if id(n) not in self._values:
            self._values[id(n)] = refmodels.value(self.igt[id(n)], self.parent[id(n)], n)
        return self._values[id(n)]


# ---------------------------------------------------------------- denotation

def children(n):
    return (n.get('md') or []) + (n.get('ch') or [])


def named(doc, n, test):
    """Does a node satisfy a name test?"""
    pre = None
    if ':' in test:
        pre, test = test.split(':', 1)
    if pre is not None:
        uri = (doc.root.get('nsmap') or {}).get(pre, pre)
        if n.get('ns') != uri:
            return False
    return test == '*' or test == (n['name'] if n['k'] == 'mc' else n['k'])


def preorder(n):
    yield n
    for x in children(n):
        yield from preorder(x)


def attribute(doc, n, name):
    if name in ('id', 'type', 'name'):
        v = None if n['k'] == 'mc' and name != 'name' else n.get(name)
        if v is None:
            v = n['attrs'].get(name)
        return [] if v is None else [v]
    if name == '*':
        return list(n['attrs'].values())
    if ':' in name:
        pre, name = name.split(':', 1)
        name = '{%s}%s' % ((doc.root.get('nsmap') or {}).get(pre, pre), name)
    v = n['attrs'].get(name)
    return [] if v is None else [v]


def by_id(doc, igt, i):
    for t in igt['ch']:
        if t.get('id') == i:
            return t
    for t in igt['ch']:
        for x in t['ch']:
            if x.get('id') == i:
                return x
    raise KeyError(i)


def function(doc, n, name, args):
    if name == 'text':
        return [] if n.get('text') is None else [n['text']]
    if name == 'value':
        v = doc.value(n)
        return [] if v is None else [v]
    igt = doc.igt[id(n)]
    r = []
    for ra in sorted(set(args or REFATTRS)):
        if name == 'referent':
            r += [by_id(doc, igt, i) for i in refmodels.ids(n['attrs'].get(ra, ''))]
        else:
            pool = igt['ch'] if n['k'] == 'tier' else [x for t in igt['ch'] for x in t['ch']]
            r += [x for x in pool if n['id'] in refmodels.ids(x['attrs'].get(ra, ''))]
    return r


def evaluate(doc, nodes, path):
    """nodes: list of nodes or strings"""
    if path['abs']:
        nodes = [doc.root]
    for s in path['steps']:
        out = []
        for n in nodes:
            a = s['axis']
            if a == 'self':
                found = [n]
            elif isinstance(n, str):
                found = []
            elif a == 'child':
                found = [x for x in children(n) if named(doc, x, s['test'])]
            elif a == 'desc':
                found = [x for x in preorder(n) if named(doc, x, s['test'])]
            elif a == 'attr':
                found = attribute(doc, n, s['test'])
            elif a == 'up':
                p = doc.parent[id(n)]
                found = [] if p is None else [p]
            elif a == 'func':
                found = function(doc, n, s['test'], s.get('args'))
            elif a == 'group':
                found = [x for p in s['paths'] for x in evaluate(doc, [n], p)]
            out += found
        for p in s.get('preds') or []:
            out = [n for n in out if holds(doc, n, p)]
        nodes = out
    return nodes


def holds(doc, n, p):
    found = evaluate(doc, [n], p['path'])
    if p['op'] is None:
        return bool(found)
    eq = any(isinstance(x, str) and x == p['val'] for x in found)
    return eq if p['op'] == '=' else not eq


# ---------------------------------------------------------------- text

def quote(s):
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


def render(path, rng=None, ws=0):
    def sp():
        return ' ' if rng is not None and rng.random() < ws else ''
    out = ''
    for k, s in enumerate(path['steps']):
        a = s['axis']
        if a == 'desc':
            # // stands for itself, also at the beginning of an absolute path
            out += sp() + '//' + sp() + s['test']
        else:
            if k or path['abs']:
                out += sp() + '/' + sp()
            if a == 'child':
                out += s['test']
            elif a == 'attr':
                out += '@' + s['test']
            elif a == 'up':
                out += '..'
            elif a == 'self':
                out += '.'
            elif a == 'func':
                args = s.get('args') or []
                out += '%s(%s)' % (s['test'], (',' + sp()).join(
                    quote(x) if len(args) > 1 or s.get('quoted', True) else x for x in args))
            elif a == 'group':
                out += '(' + sp() + (sp() + '|' + sp()).join(
                    render(p, rng, ws) for p in s['paths']) + sp() + ')'
        for p in s.get('preds') or []:
            out += sp() + '[' + sp() + render(p['path'], rng, ws)
            if p['op']:
                out += sp() + p['op'] + sp() + quote(p['val'])
            out += sp() + ']'
    return out


# ---------------------------------------------------------------- generation

def usable(name):
    return not set(name) & set('./[]!=|(),"{} \t\n@*')


class Gen:
    def __init__(self, rng, doc):
        self.rng, self.doc = rng, doc
        self.prefixes = sorted(p for p in (doc.root.get('nsmap') or {}) if p and usable(p))
        self.mcnames = [n for n in doc.mcnames if usable(n)]

    def path(self, kinds, depth=0, downward=False):
        """A path that makes sense for nodes of these kinds."""
        rng = self.rng
        p = {'abs': '', 'steps': []}
        if rng.random() < (.35 if depth == 0 else .12):
            p['abs'] = '/'
            kinds = {'corpus'}
            if rng.random() < .5:
                s = self.desc(kinds)
                p['steps'].append(s)
                kinds = self.after(s, kinds)
                s['preds'] = self.preds(kinds, depth)
        n = rng.choice([1, 1, 2, 2, 3, 4] if depth == 0 else [1, 1, 1, 2])
        while len(p['steps']) < n or not p['steps']:
            s = self.step(kinds, depth, first=not p['steps'], rel=not p['abs'], downward=downward)
            if s is None:
                break
            kinds = self.after(s, kinds)
            s['preds'] = self.preds(kinds, depth)
            p['steps'].append(s)
            if 'str' in kinds or not kinds:
                break
        if not p['steps']:
            p['steps'] = [{'axis': 'self', 'preds': []}]
            if p['abs']:
                p['steps'] = [self.desc({'corpus'})]
        return p

    def desc(self, kinds):
        rng = self.rng
        test = rng.choice(['igt', 'tier', 'item', 'item', 'tier', 'metadata', 'meta', '*'])
        if self.mcnames and rng.random() < .25:
            test = self.qualify(rng.choice(self.mcnames))
        return {'axis': 'desc', 'test': test}

    def qualify(self, name):
        if self.prefixes and self.rng.random() < .4:
            return self.rng.choice(self.prefixes) + ':' + name
        return name

    def step(self, kinds, depth, first, rel, downward):
        rng = self.rng
        options = ['child'] * 8 + ['attr'] * 3 + ['self']
        if not downward:
            options += ['up', 'up']
        if not (first and rel):
            options += ['desc', 'desc']
        if kinds <= {'item', 'meta', 'mc'}:
            options += ['text'] * 3
        if kinds == {'item'}:
            options += ['value'] * 3
        if kinds <= {'tier', 'item'} and not downward:
            options += ['referent', 'referrer', 'referent', 'referrer']
        if depth < 2 and not downward:
            options += ['group', 'group']
        for _ in range(8):
            a = rng.choice(options)
            if a == 'child':
                test = self.child(kinds)
                if test is None:
                    continue
                return {'axis': 'child', 'test': test}
            if a == 'attr':
                return {'axis': 'attr', 'test': self.attrname()}
            if a == 'desc':
                return self.desc(kinds)
            if a == 'group':
                return {'axis': 'group', 'paths': [self.path(kinds, depth + 1)
                                                   for _ in range(rng.choice([1, 2, 2, 3]))]}
            if a in ('up', 'self'):
                return {'axis': a}
            s = {'axis': 'func', 'test': a, 'args': []}
            if a in ('referent', 'referrer') and rng.random() < .5:
                s['args'] = rng.sample(REFATTRS, rng.choice([1, 1, 2]))
                if rng.random() < .02:      # very many
                    s['args'] += ['x%d' % j for j in range(rng.choice([4, 12]))]
                    rng.shuffle(s['args'])
                s['quoted'] = rng.random() < .8
            return s
        return None

    def child(self, kinds):
        rng = self.rng
        names = []
        for k in sorted(kinds):
            if k in ('meta', 'mc'):
                names += [self.qualify(x) for x in self.mcnames] or ['x']
                if self.prefixes and kinds <= {'meta', 'mc'}:
                    names.append(rng.choice(self.prefixes) + ':*')
            elif DOWN[k]:
                names += [DOWN[k]] * 3
                if k in ('corpus', 'igt', 'tier'):
                    names.append('metadata')
            names.append('*')
        if rng.random() < .03:
            return rng.choice(['igt', 'tier', 'item', 'meta', 'metadata', 'nope', 'text'])
        return rng.choice(names) if names else None

    def attrname(self):
        rng = self.rng
        names = []
        uris = {u: p for p, u in (self.doc.root.get('nsmap') or {}).items() if p and usable(p)}
        for a in self.doc.attrnames:
            if a.startswith('{'):
                uri, name = a[1:].rsplit('}', 1)
                if uri in uris and usable(name):
                    names.append(uris[uri] + ':' + name)
            elif usable(a) and ':' not in a:
                names.append(a)
        return rng.choice(names) if names and rng.random() < .6 else \
            rng.choice(['id', 'id', 'type', 'type', 'name', '*', 'nope', 'alignment'])

    def after(self, s, kinds):
        a, test = s['axis'], s.get('test')
        if a == 'self':
            return set(kinds)
        if a == 'attr' or test in ('text', 'value') and a == 'func':
            return {'str'}
        if a == 'func':
            return set(kinds)
        if a == 'up':
            return {u for k in kinds for u in UP[k]}
        if a == 'group':
            out = set()
            for p in s['paths']:
                ks = {'corpus'} if p['abs'] else set(kinds)
                for x in p['steps']:
                    ks = self.after(x, ks)
                out |= ks
            return out
        reach = set(kinds)
        if a == 'child':
            reach = {DOWN[k] for k in kinds if DOWN[k]}
            if kinds & {'corpus', 'igt', 'tier'}:
                reach.add('metadata')
        else:
            for k in ('corpus', 'igt', 'tier'):
                if k in reach:
                    reach |= {DOWN[k], 'metadata'}
            if 'metadata' in reach:
                reach.add('meta')
            if 'meta' in reach:
                reach.add('mc')
        name = test.split(':')[-1]
        if name == '*':
            return {'mc'} if ':' in test else reach
        out = {k for k in reach if k == name and ':' not in test}
        if 'mc' in reach and name in self.doc.mcnames:
            out.add('mc')
        return out

    def preds(self, kinds, depth):
        rng = self.rng
        if depth >= 1 or not kinds or rng.random() > .3:
            return []
        if 'str' in kinds:
            return []
        r = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            q = self.path(kinds, 1 if rng.random() < .8 else 2)
            ks = {'corpus'} if q['abs'] else set(kinds)
            for s in q['steps']:
                s['preds'] = []
                ks = self.after(s, ks)
            strip(q)
            p = {'path': q, 'op': None, 'val': None}
            if ks == {'str'} or rng.random() < .1:
                p['op'] = rng.choice([None, '=', '=', '=', '!='])
                if p['op']:
                    p['val'] = self.literal(q, kinds)
            r.append(p)
        return r

    def literal(self, q, kinds):
        """Mostly a value that occurs."""
        rng = self.rng
        pool = [n for n in self.doc.nodes if n['k'] in kinds]
        for _ in range(4):
            if not pool or rng.random() < .1:
                break
            found = [x for x in evaluate(self.doc, [rng.choice(pool)], q) if isinstance(x, str)]
            if found:
                v = rng.choice(found)
                r = rng.random()
                return v if r < .9 else v + ' ' if r < .95 else v.upper()
        return rng.choice(['', 'nope', 'i1', 'words', 'x"y', '\\', 'a\\"', ']', '[', '/', '(', '|',
                           'a|b', '=', '!='])


def grow(rng, doc, p):
    """Something very long or deep that contains the path."""
    r = rng.random()
    some = [{'abs': '', 'steps': [dict(s, preds=[])]} for s in (
        {'axis': 'child', 'test': '*'}, {'axis': 'child', 'test': 'metadata'},
        {'axis': 'attr', 'test': 'id'}, {'axis': 'child', 'test': 'nope'}, {'axis': 'self'})]
    if r < .35:
        for _ in range(rng.choice([4, 9, 14])):
            two = [p, rng.choice(some)] if rng.random() < .8 else [p]
            rng.shuffle(two)
            p = {'abs': '', 'steps': [{'axis': 'group', 'paths': two, 'preds': []}]}
        return p
    if r < .6:
        return {'abs': '', 'steps': [{'axis': 'group', 'preds': [], 'paths':
            [rng.choice(some) for _ in range(rng.choice([7, 12, 40]))] + [p]}]}
    # many predicates, the last of which decides
    ids = [n['id'] for n in doc.nodes if n.get('id') and n['k'] in ('igt', 'tier', 'item')] or ['i']

    def q(*steps):
        return {'abs': '', 'steps': [dict(x, preds=[]) for x in steps]}
    yes = {'path': q({'axis': 'self'}), 'op': None, 'val': None}
    no = {'path': q({'axis': 'attr', 'test': 'id'}), 'op': '!=', 'val': 'nope' * 20}
    some = [dict(rng.choice([yes, no])) for _ in range(rng.choice([3, 6, 12]))]
    some.append({'path': q({'axis': 'attr', 'test': 'id'}), 'op': rng.choice(['=', '!=']),
                 'val': rng.choice(ids)})
    step = {'axis': 'desc', 'test': rng.choice(['igt', 'tier', 'item', '*']), 'preds': some}
    return {'abs': '/', 'steps': [step]}


def strip(p):
    for s in p['steps']:
        s['preds'] = []
        for q in s.get('paths') or []:
            strip(q)
