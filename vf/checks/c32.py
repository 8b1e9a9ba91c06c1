"""C32: work grows in proportion to the size, and not with what was done before."""
import gc
import io
import os
import random
import tracemalloc

from .. import cli
from ..engine import Violation, require

ID = 'C32'
RULE = ('a case is an operation and a regular shape of corpus of which one dimension grows; the '
        'logical steps and the comparisons of ids that it takes are counted at three sizes, each '
        'twice the one before, and, for some, when done again; non-trivial: the work grows or is '
        'compared with that of an earlier time')
CASES = {'quick': 1200, 'thorough': 24000}
MIN_EVENTS = {'linear': 400, 'constant': 50, 'quadratic': 20, 'again': 80, 'steps': 40000000,
              'comparisons': 300000}
ASSUMPTIONS = ['Logical steps are the calls and backward jumps executed in the repository, and '
               'comparisons those of ids that the check hands in; time spent within the interpreter and '
               'its library is not counted (the memory it takes is).']
LIMIT = 10 ** 9
DIMS = ('igts', 'tiers', 'items', 'metadata', 'metas', 'children', 'attributes')


class Id(str):
    """A string that counts how often it is compared or hashed."""
    __slots__ = ()
    count = 0

    def __eq__(self, other):
        Id.count += 1
        return str.__eq__(self, other)

    def __ne__(self, other):
        Id.count += 1
        return str.__ne__(self, other)

    def __hash__(self):
        Id.count += 1
        return str.__hash__(self)


# ------------------------------------------------------------------ corpora

def make(p, n):
    """The corpus of a shape, where one dimension has the size n."""
    import xigt
    size = dict(p['size'])
    size[p['dim']] = n
    ident = Id
    style = p['ids']

    def name(*parts):
        if style == 0:
            return ident('x' + '-'.join(str(x) for x in parts))
        if style == 1:
            return ident('x%s' % ''.join('%04d' % x for x in parts))
        return ident('common-prefix-of-all-ids.%s' % '.'.join(str(x) for x in parts))

    def attrs(k):
        r = {'a%d' % j: 'v%d' % (j % 3) for j in range(size['attributes'])}
        if p['noise'] and k % 3 == 0:
            r['lang'] = 'x'
        return r

    def metadata():
        r = []
        for j in range(size['metadata']):
            metas = []
            for m in range(size['metas']):
                ch = []
                for c in range(size['children']):
                    ch.append(xigt.MetaChild('c%d' % (c % 3), attributes={'n': str(c)}, text='t'))
                if size['nested']:
                    top = xigt.MetaChild('d', text='deep')
                    for c in range(size['nested']):
                        top = xigt.MetaChild('d', attributes={'n': '1'}, children=[top])
                    ch.append(top)
                metas.append(xigt.Meta(type='t%d' % (m % 4), children=ch) if ch else
                             xigt.Meta(type='t%d' % (m % 4), text='text', attributes={'n': str(m)}))
            r.append(xigt.Metadata(type='xigt-meta', metas=metas))
        return r

    igts = []
    for g in range(size['igts']):
        tiers = []
        for t in range(size['tiers']):
            base = 0 if p['dim'] == 'tiers' else t - 1
            ra = None if t == 0 else p['refs'][t % len(p['refs'])]
            items = []
            for i in range(size['items']):
                a = attrs(i)
                if ra:
                    target = name(g if p['unique'] else 0, base, i)
                    a[ra] = ('%s[0:2]' % target if ra == 'segmentation' else str(target))
                    if ra == 'alignment' and i % 4 == 1 and i + 1 < size['items']:
                        a[ra] += ' ' + name(g if p['unique'] else 0, base, i + 1)
                text = None if ra == 'segmentation' and p['values'] else 'dog%d' % (i % 10)
                items.append(xigt.Item(id=name(g if p['unique'] else 0, t, i), type='w', text=text,
                                       attributes=a))
            a = attrs(t)
            if ra:
                a[ra] = str(name(g if p['unique'] else 0, base))
            if p['shuffle'] and t % 2:
                items.reverse()
            tiers.append(xigt.Tier(id=name(g if p['unique'] else 0, t),
                                   type=('words', 'glosses', 'x')[t % 3], items=items, attributes=a))
        if p['shuffle']:
            tiers.reverse()
        igts.append(xigt.Igt(id=name(g), tiers=tiers,
                             metadata=metadata() if p['where'] == 'igt' else None))
    return xigt.XigtCorpus(igts=igts, metadata=metadata() if p['where'] == 'corpus' else None)


def containers(c):
    return [c] + list(c) + [t for g in c for t in g]


def items(c):
    return [i for g in c for t in g for i in t]


def objects(c):
    return containers(c) + items(c)


def parts(c):
    """Containers without their members."""
    import xigt
    return ([(list(c), xigt.XigtCorpus())] + [(list(g), xigt.Igt()) for g in c]
            + [(list(t), xigt.Tier()) for g in c for t in g])


def _codec(name):
    from xigt.codecs import xigtjson, xigtxml
    return {'xml': xigtxml, 'json': xigtjson}[name]


def _write(c, name, mon, ext='xml'):
    path = os.path.join(mon.scratch(), name)
    _codec(ext).dump(path, c)
    return path


def _clear(c, method):
    for x in list(reversed(containers(c))):
        while len(x):
            method(x)


def _iterate(text, mode):
    c = _codec('xml').load(io.BytesIO(text), mode=mode)
    for g in c:
        pass
    if mode == 'incremental':
        for g in c:
            pass
        len(c)


def _paths(*ps):
    from xigt import xigtpath

    def f(c):
        for p in ps:
            for x in xigtpath.iterfind(c, p):
                pass
    return f


def _cmd(command, *args):
    def f(path):
        out = path + '.out'
        r = cli.call(command, [a.format(path=path, out=out) for a in args])
        if r.code and command != 'validate':
            raise Violation('%s ends with %r: %s' % (command, r.code, r.err[-400:]))
    return f


def _drop(path):
    import shutil
    out = path + '.out'
    if os.path.isdir(out):
        shutil.rmtree(out)
    elif os.path.exists(out):
        os.unlink(out)


def _merge(c):
    """All of the members taken out and put in again, with a change of an id."""
    for x in containers(c):
        ms = list(x)
        x.clear()
        x.extend(ms)
        x.refresh_index()


def _rename(c):
    for k, x in enumerate(items(c)):
        x.id = Id('new%d' % k)
    for g in c:
        g.refresh_indices(tiers=True)


def _dangling(c):
    for g in c:
        for t in g:
            for x in t:
                g.get_item('none')
                g.get_any('none')
                t.get('none')


def _resolve(c):
    from xigt import ref
    for g in c:
        for t in g:
            for x in t:
                for a in ('segmentation', 'alignment', 'content'):
                    if a in x.attributes and a in t.attributes:
                        ref.dereference(x, a)
                        ref.dereference_all(x, a)


def _referrers(c):
    for g in c:
        for t in g:
            for x in t:
                g.referents(x.id)
                g.referrers(x.id)
                x.referents()
                x.referrers()


def _sort(c):
    for g in c:
        g.sort_tiers()


def _walk(c):
    from xigt import query
    for g in c:
        for t in g:
            list(query.ancestors(t))
            list(query.descendants(t))


def _expressions(n):
    terms = ['x%d%s' % (k, ('', '[0:1]', '[0:1,2:3]', '[4:9+1:2]')[k % 4]) for k in range(n)]
    return ''.join(x + '+, '[k % 3] for k, x in enumerate(terms))[:-1]


def _refs(e):
    from xigt import ref
    ref.expand(e)
    ref.compress(ref.expand(e))
    ref.ids(e)
    ref.selections(e)
    ref.spans(e)


def _ns(c):
    for x in objects(c):
        x.get_attribute('a0', inherit=True)
        x.get_attribute('none', inherit=True, default='x')
    for x in containers(c):
        x.get_meta('t1') if hasattr(x, 'get_meta') else None


def _eq(pair):
    a, b = pair
    require(a == b, 'two corpora of the same shape are not equal')


def _encode_parts(c):
    x = _codec('xml')
    j = _codec('json')
    for g in c:
        x.encode_igt(g)
        j.encode_igt(g)


ALL = DIMS
CORE = ('igts', 'tiers', 'items')
# name: dimensions, class of growth, setup(shape, n, mon), operation, may be done again?
OPS = {
    'construct': (ALL, 1, lambda p, n, m: (p, n), lambda a: make(*a), True),
    'write xml': (ALL, 1, lambda p, n, m: make(p, n), lambda c: _codec('xml').dumps(c), True),
    'write xml, plain': (ALL, 1, lambda p, n, m: make(p, n),
                         lambda c: _codec('xml').dumps(c, indent=0), True),
    'write json': (ALL, 1, lambda p, n, m: make(p, n), lambda c: _codec('json').dumps(c), True),
    'read xml': (ALL, 1, lambda p, n, m: _codec('xml').dumps(make(p, n)),
                 lambda s: _codec('xml').loads(s), True),
    'read xml, incremental': (ALL, 1, lambda p, n, m: _codec('xml').dumps(make(p, n)).encode(),
                              lambda s: _iterate(s, 'incremental'), True),
    'read xml, transient': (ALL, 1, lambda p, n, m: _codec('xml').dumps(make(p, n)).encode(),
                            lambda s: _iterate(s, 'transient'), True),
    'read json': (ALL, 1, lambda p, n, m: _codec('json').dumps(make(p, n)),
                  lambda s: _codec('json').loads(s), True),
    'encode parts': (ALL, 1, lambda p, n, m: make(p, n), _encode_parts, True),
    'compare': (ALL, 1, lambda p, n, m: (make(p, n), make(p, n)), _eq, True),
    'append': (CORE, 1, lambda p, n, m: parts(make(p, n)),
               lambda ps: [[c.append(x) for x in xs] for xs, c in ps], False),
    'insert': (CORE, 1, lambda p, n, m: parts(make(p, n)),
               lambda ps: [[c.insert(k // 2, x) for k, x in enumerate(xs)] for xs, c in ps], False),
    'insert in front': (CORE, 1, lambda p, n, m: parts(make(p, n)),
                        lambda ps: [[c.insert(0, x) for x in xs] for xs, c in ps], False),
    'extend': (CORE, 1, lambda p, n, m: parts(make(p, n)),
               lambda ps: [c.extend(xs) for xs, c in ps], False),
    'set': (CORE, 1, lambda p, n, m: make(p, n),
            lambda c: [[x.__setitem__(k, x[k]) for k in range(len(x))] for x in containers(c)], True),
    'pop': (CORE, 1, lambda p, n, m: make(p, n), lambda c: _clear(c, lambda x: x.pop()), False),
    'pop first': (CORE, 1, lambda p, n, m: make(p, n), lambda c: _clear(c, lambda x: x.pop(0)), False),
    'delete': (CORE, 1, lambda p, n, m: make(p, n),
               lambda c: _clear(c, lambda x: x.__delitem__(-1)), False),
    'merge': (CORE, 1, lambda p, n, m: make(p, n), _merge, True),
    'rename': (CORE, 1, lambda p, n, m: make(p, n), _rename, False),
    'refresh': (CORE, 1, lambda p, n, m: make(p, n),
                lambda c: [g.refresh_indices(tiers=True) for g in c], True),
    'iterate': (ALL, 1, lambda p, n, m: make(p, n),
                lambda c: [[(len(x), list(x)) for x in containers(c)] for _ in range(2)], True),
    'look up all': (CORE, 1, lambda p, n, m: make(p, n),
                    lambda c: [(g.get_item(x.id), g.get_any(x.id), t.get(x.id), t[x.id], t[k],
                                g.get(t.id))
                               for g in c for t in g for k, x in enumerate(t)], True),
    'look up in vain': (CORE, 1, lambda p, n, m: make(p, n), _dangling, True),
    'references': (CORE, 1, lambda p, n, m: make(p, n), _referrers, True),
    'dereference': (CORE, 1, lambda p, n, m: make(p, n), _resolve, True),
    'values': (CORE, 1, lambda p, n, m: make(p, n), lambda c: [x.value() for x in items(c)], True),
    'inherited': (('igts', 'tiers', 'items'), 1, lambda p, n, m: make(p, n), _ns, True),
    'metadata': (('metadata', 'metas', 'children'), 1, lambda p, n, m: make(p, n),
                 lambda c: [(x.get_meta('t1'), x.get_meta('none'), x.get_meta('t0', conditions=[]))
                            for x in [c] + list(c)], True),
    'select': (CORE, 1, lambda p, n, m: make(p, n),
               lambda c: [(list(x.select(type='w')), list(x.select(id='none')))
                          for x in containers(c)], True),
    'sort tiers': (CORE, 1, lambda p, n, m: make(p, n), _sort, True),
    'walk': (('igts', 'items'), 1, lambda p, n, m: make(p, n), _walk, True),
    'walk over tiers': (('tiers',), 2, lambda p, n, m: make(p, n), _walk, True),
    'path, children': (CORE, 1, lambda p, n, m: make(p, n),
                       _paths('igt/tier/item', 'igt/*', 'igt/tier/item/text()', 'igt/tier/item/@id'),
                       True),
    'path, descendants': (CORE, 1, lambda p, n, m: make(p, n), _paths('//item', './/tier/@type'), True),
    'path, upwards': (CORE, 1, lambda p, n, m: make(p, n),
                      _paths('igt/tier/item/..', 'igt/tier/..'), True),
    'path, predicates': (CORE, 1, lambda p, n, m: make(p, n),
                         _paths('igt/tier[@type="words"]/item[text()="dog1"]/@id',
                                'igt[tier/@type="x"]/tier', 'igt/tier/item[value()="do"]'), True),
    'path, unions': (CORE, 1, lambda p, n, m: make(p, n),
                     _paths('igt/(tier | metadata)', 'igt/tier/(item/@id | @type)'), True),
    'path, metadata': (('metadata', 'metas', 'children'), 1, lambda p, n, m: make(p, n),
                       _paths('metadata/meta/@type', 'igt/metadata/meta[@type="t1"]', '//meta/*'),
                       True),
    'path, referents': (CORE, 1, lambda p, n, m: make(p, n),
                        _paths('igt/tier/item/referent()', 'igt/tier/referent()/@id'), True),
    'path, referrers': (('igts',), 1, lambda p, n, m: make(p, n), _paths('//item/referrer()'), True),
    'path, many referrers': (('tiers', 'items'), 2, lambda p, n, m: make(p, n),
                             _paths('igt/tier/item/referrer()'), True),
    'expressions': (('terms',), 1, lambda p, n, m: _expressions(n), _refs, True),
    'long path': (('steps',), 1, lambda p, n, m: (make(p, 2), 'igt/tier/item' + '/.' * n),
                  lambda a: _paths(a[1])(a[0]), True),
    'validate': (ALL, 1, lambda p, n, m: _write(make(p, n), 'v.xml', m), _cmd('validate', '{path}'),
                 True),
    'validate, everything': (CORE, 1, lambda p, n, m: _write(make(p, n), 'w.xml', m),
                             _cmd('validate', '-vvv', '{path}'), True),
    'sort': (CORE, 1, lambda p, n, m: _write(make(p, n), 's.xml', m),
             _cmd('sort', '--igt-key', '@id', '--tier-key', '@type', '--tier-key', '@id', '--item-key',
                  'text()', '{path}'), True),
    'sort by dependency': (CORE, 1, lambda p, n, m: _write(make(p, n), 'd.xml', m),
                           _cmd('sort', '--tier-deps', 'segmentation,alignment,content', '{path}'), True),
    'partition': (CORE, 1, lambda p, n, m: _write(make(p, n), 'p.xml', m),
                  _cmd('partition', '--key-path', 'tier/@type', '{out}', '{path}'), True),
    'query': (CORE, 1, lambda p, n, m: _write(make(p, n), 'q.xml', m),
              _cmd('query', '-f', '//item/@id', '-c', '//item', '-t', 'igt/tier', 'item/@type',
                   '-u', '//item', '{path}'), True),
    'latex': (('igts',), 1, lambda p, n, m: _write(make(p, n), 'l.xml', m),
              _cmd('export', '-i', '{path}', '-o', '{out}'), True),
    'latex, wide': (('items',), 2, lambda p, n, m: _write(make(p, n), 'm.xml', m),
                    _cmd('export', '-i', '{path}', '-o', '{out}'), True),
}


def _one(c, what):
    """An operation on one member of each container."""
    import xigt
    g = c[len(c) // 2]
    t = g[len(g) // 2]
    x = t[len(t) // 2]
    if what == 'item':
        return lambda: (g.get_item(x.id), g.get_any(x.id), t.get(x.id), t[x.id], t.get('none'))
    if what == 'tier':
        return lambda: (g.get(t.id), g[t.id], g.get_any(t.id), g[0], g[-1])
    if what == 'igt':
        return lambda: (c.get(g.id), c[g.id], c[0], c[-1], c.get('none'))
    if what == 'value':
        return lambda: (x.value(), x.get_content(), x.get_attribute('a0', inherit=True))
    if what == 'references':
        return lambda: (g.referents(x.id), g.referrers(x.id), x.referents())
    if what == 'append':
        return lambda: (t.append(xigt.Item(id=Id('last'))), t.pop(), g.append(xigt.Tier(id=Id('last'))),
                        g.pop(), c.append(xigt.Igt(id=Id('last'))), c.pop())
    if what == 'set':
        return lambda: (t.__setitem__(-1, t[-1]), g.__setitem__(0, g[0]), c.__setitem__(-1, c[-1]))
    if what == 'insert':
        return lambda: (t.insert(1, xigt.Item(id=Id('last'))), t.pop(1),
                        g.insert(0, xigt.Tier(id=Id('last'))), g.pop(0))
    if what == 'change':
        return lambda: (x.attributes.update(lang='y'), setattr(x, 'text', 'other'), setattr(t, 'type', 'q'))
    if what == 'context':
        return lambda: (x.igt, x.corpus, x.tier, t.igt, t.corpus, g.corpus, len(t), len(g), len(c))
    raise AssertionError(what)


ONES = ('item', 'tier', 'igt', 'value', 'references', 'append', 'set', 'insert', 'change', 'context')


# ------------------------------------------------------------------- checks

def _shape(rng, dim):
    size = {'igts': rng.randint(1, 3), 'tiers': rng.randint(2, 4), 'items': rng.randint(2, 4),
            'metadata': 0, 'metas': 0, 'children': 0, 'nested': 0, 'attributes': rng.randint(0, 2)}
    if dim in ('metadata', 'metas', 'children') or rng.random() < .3:
        for d in ('metadata', 'metas', 'children', 'nested'):
            size[d] = rng.randint(1, 2) if d != 'nested' else rng.randint(0, 2)
    return {'dim': dim, 'size': size, 'ids': rng.randint(0, 2), 'noise': rng.random() < .4,
            'values': rng.random() < .6, 'shuffle': rng.random() < .2, 'unique': rng.random() < .5,
            'refs': rng.choice([['segmentation', 'alignment'], ['alignment'], ['alignment', 'content'],
                                ['segmentation']]),
            'where': rng.choice(['igt', 'corpus'])}


def generate(rng, i, tier):
    if rng.random() < .12:
        dim = rng.choice(CORE)
        return {'one': rng.choice(ONES), 'shape': _shape(rng, dim), 'n': rng.choice([30, 60, 90])}
    op = rng.choice(sorted(OPS))
    dim = rng.choice(OPS[op][0])
    n = rng.choice([40, 60, 80] if OPS[op][1] == 1 else [16, 24])
    if tier == 'thorough' and rng.random() < .2:
        n *= 2
    return {'op': op, 'shape': _shape(rng, dim), 'n': n, 'again': OPS[op][4] and rng.random() < .3}


def count(mon, f):
    Id.count = 0
    with mon.budget(LIMIT):
        f()
    steps, ids = mon.budget.steps, Id.count
    mon.hit('steps', steps)
    mon.hit('comparisons', ids)
    return steps, ids


def memory(f):
    """The bytes needed at a time: lists and tables that grow now and then do
    not count, copies of them do."""
    rs = []
    gc.collect()
    tracemalloc.start(1)
    try:
        for _ in range(9):
            tracemalloc.reset_peak()
            a = tracemalloc.get_traced_memory()[0]
            f()
            rs.append(tracemalloc.get_traced_memory()[1] - a)
    finally:
        tracemalloc.stop()
    return sorted(rs)[4]


def run(case, mon):
    p, n = case['shape'], case['n']
    if 'one' in case:
        return run_one(case, mon)
    dims, degree, setup, f, repeat = OPS[case['op']]
    got = []
    for size in (n, 2 * n, 4 * n):
        x = setup(p, size, mon)
        got.append(count(mon, lambda: f(x)))
        if isinstance(x, str) and x.startswith(mon.scratch()):
            _drop(x)
        if size == n and case['again']:
            for _ in range(3):
                later = count(mon, lambda: f(x))
                if isinstance(x, str) and x.startswith(mon.scratch()):
                    _drop(x)
            for k, what in enumerate(('steps', 'comparisons of ids')):
                require(later[k] <= 1.3 * got[0][k] + 50,
                        '{} takes {} {} when done for the fourth time, and took {} at first',
                        case['op'], later[k], what, got[0][k])
            mon.hit('again')
    factor = {1: 3, 2: 6}[degree]        # twice the size: between linear and quadratic, or cubic
    for k, what in enumerate(('steps', 'comparisons of ids')):
        a, b, c = (x[k] for x in got)
        require(c - b <= factor * max(0, b - a) + 60,
                '{}: {} at sizes {} of {} take {}', case['op'], what, (n, 2 * n, 4 * n), p['dim'],
                (a, b, c))
    mon.hit({1: 'linear', 2: 'quadratic'}[degree])
    mon.state(case['op'], p['dim'], p['ids'], p['noise'], p['values'], p['shuffle'], tuple(p['refs']))
    mon.trivial = not (got[2][0] > got[0][0] or case['again'])


def run_one(case, mon):
    p, n = case['shape'], case['n']
    got = []
    for size in (n, 4 * n):
        f = _one(make(p, size), case['one'])
        f()                              # what is computed once need not be counted
        got.append(count(mon, f) + (memory(f),))
    mon.hit('bytes', sum(x[2] for x in got))
    require(got[1][2] <= 1.5 * got[0][2] + 1500, '{} of one member needs {} bytes for a while with '
            '{} {}, and {} with {}', case['one'], got[0][2], n, p['dim'], got[1][2], 4 * n)
    for k, what in enumerate(('steps', 'comparisons of ids')):
        a, b = got[0][k], got[1][k]
        require(b <= 1.2 * a + 12, '{} of one member takes {} {} with {} {}, and {} with {}',
                case['one'], a, what, n, p['dim'], b, 4 * n)
    mon.hit('constant')
    mon.state('one', case['one'], p['dim'], p['ids'], p['shuffle'], tuple(p['refs']))
