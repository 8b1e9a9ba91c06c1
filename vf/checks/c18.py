"""C18: equality is structural, and inequality is its negation."""
import copy
import random

from .. import gen, model
from ..engine import Violation, require, short

ID = 'C18'
RULE = ('a case is a corpus, built twice by different routes, and a single change of one property of '
        'one node at any depth; all pairs of objects on the path, and objects of other kinds, are '
        'compared; non-trivial: there is an IGT or metadata')
CASES = {'quick': 6000, 'thorough': 200000}
MIN_EVENTS = {'equal': 30000, 'unequal': 20000, 'other kinds': 50000, 'deep change': 1000,
              'edited in place': 8000}
CHANGES = ('id', 'type', 'attr-value', 'attr-new', 'attr-del', 'text', 'name', 'ns', 'drop-child',
           'add-child', 'swap', 'drop-md', 'add-md', 'ref', 'dup')


def generate(rng, i, tier):
    spec = gen.gen_corpus(rng, gen.Opts(ns='any', igts=(0, 3), tiers=(0, 3), items=(0, 3),
                                        maxlen=15, ids=rng.choice(['all', 'some'])))
    if rng.random() < .01:
        gen.widen(rng, spec)
    nodes = [n for n, _ in gen.walk(spec)]
    for _ in range(30):
        k = rng.randrange(len(nodes))
        change = rng.choice(CHANGES)
        other = copy.deepcopy(spec)
        if mutate(list(gen.walk(other))[k][0], change, random.Random(rng.random())):
            return {'spec': spec, 'other': other, 'change': change, 'node': k,
                    'seed': rng.randint(0, 10 ** 9)}
    return {'spec': spec, 'other': None, 'change': None, 'node': 0, 'seed': 1}


def mutate(n, change, rng):
    """Change one thing; False if that is not possible here."""
    ch, md = n.get('ch'), n.get('md')
    if change == 'id' and n['k'] != 'mc':
        n['id'] = None if n.get('id') and rng.random() < .5 else 'changed' + str(rng.randint(0, 9))
    elif change == 'type' and n['k'] != 'mc':
        old = n.get('type')
        n['type'] = rng.choice([x for x in (None, '', 'changed', (old or '') + 'x',
                                            (old or '').upper()) if x != old])
    elif change == 'attr-value' and n['attrs']:
        k = rng.choice(sorted(n['attrs']))
        n['attrs'][k] = rng.choice([n['attrs'][k] + ' ', n['attrs'][k] + 'x'])
    elif change == 'attr-new':
        n['attrs'][rng.choice(['new', '{urn:new}name'])] = rng.choice(['', 'x'])
    elif change == 'attr-del' and n['attrs']:
        del n['attrs'][rng.choice(sorted(n['attrs']))]
    elif change == 'ref' and n['k'] in ('tier', 'item'):
        ras = [ra for ra in gen.REFATTRS if ra in n['attrs']]
        if not ras:
            return False
        n['attrs'][ras[0]] += rng.choice(['+x', '0', '[0:1]'])
    elif change == 'text' and 'text' in n:
        old = n['text']
        n['text'] = rng.choice([x for x in (None, '', (old or '') + ' ', (old or '') + 'x')
                                if x != old])
    elif change == 'name' and n['k'] == 'mc':
        n['name'] += 'x'
    elif change == 'ns':
        n['ns'] = 'urn:changed' if n.get('ns') is None or rng.random() < .5 else None
    elif change == 'drop-child' and ch:
        del ch[rng.randrange(len(ch))]
    elif change == 'add-child' and n['k'] != 'item':
        kid = {'corpus': 'igt', 'igt': 'tier', 'tier': 'item', 'metadata': 'meta', 'meta': 'mc',
               'mc': 'mc'}[n['k']]
        new = {'k': kid, 'attrs': {}, 'ch': []}
        if kid == 'mc':
            new['name'] = 'added'
        if kid == 'item':
            del new['ch']
        ch.insert(rng.randint(0, len(ch)), new)
    elif change == 'swap' and ch and len(ch) > 1:
        i = rng.randrange(len(ch) - 1)
        if plain(ch[i]) == plain(ch[i + 1]):
            return False
        ch[i], ch[i + 1] = ch[i + 1], ch[i]
    elif change == 'dup' and ch:
        x = copy.deepcopy(rng.choice(ch))
        x['id'] = None
        ch.append(x)
    elif change == 'drop-md' and md:
        del md[rng.randrange(len(md))]
    elif change == 'add-md' and n['k'] in ('corpus', 'igt', 'tier'):
        if md is None:
            n['md'] = md = []
        md.insert(rng.randint(0, len(md)), {'k': 'metadata', 'attrs': {}, 'ch': []})
    else:
        return False
    return True


def plain(n):
    """What equality is about: everything but the prefix declarations"""
    return (n['k'], n.get('name'), n.get('id'), n.get('type'), n.get('ns'), n.get('text'),
            sorted((n.get('attrs') or {}).items()), [plain(x) for x in n.get('md') or []],
            [plain(x) for x in n.get('ch') or []])


def objects(obj):
    yield obj
    k = model.kind(obj)
    if k in ('corpus', 'igt', 'tier'):
        for x in obj.metadata:
            yield from objects(x)
    if k != 'item':
        for x in obj:
            yield from objects(x)


def same(a, b, want, what):
    for x, y in ((a, b), (b, a)):
        r, nr = x == y, x != y
        require(type(r) is bool and type(nr) is bool, '{}: the result is no truth value: {}', what,
                short((r, nr)))
        require(r == want, '{} are {}equal', what, 'not ' if want else '')
        require(nr == (not want), '{}: != is not the opposite of ==', what)


class Odd:
    id = type = namespace = text = name = None
    attributes = {}
    metadata = []


def edited(A, B, rng, mon):
    """Objects change, ids included, and the indices are not refreshed."""
    for _ in range(3):
        k = rng.randrange(len(A))
        x, y = A[k], B[k]
        kids = [j for j in range(len(A)) if model.kind(A[j]) != 'mc']
        renamed = rng.sample(kids, min(len(kids), 3))
        for j in renamed:
            A[j].id = B[j].id = 'renamed%d' % j
        for p, q in zip(A, B):
            same(p, q, True, 'two %s objects, changed in the same way' % model.kind(p))
        what = rng.choice(['type', 'attributes', 'namespace'] + ['text'] * (
            2 * (model.kind(x) in ('item', 'meta', 'mc'))))
        if what == 'attributes':
            x.attributes['edited'] = 'x'
        else:
            old = getattr(x, what)
            setattr(x, what, 'edited')
        above, o = [], x
        while o is not None:
            above.append(o)
            o = getattr(o, '_parent', None)
        for p, q in zip(A, B):
            want = not any(p is o for o in above)
            same(p, q, want, 'two %s objects after a change of the %s of a %s' % (
                model.kind(p), what, model.kind(x)))
        if what == 'attributes':
            del x.attributes['edited']
        else:
            setattr(x, what, old)
        mon.hit('edited in place')


def run(case, mon):
    rng = random.Random(case['seed'])
    spec, other = case['spec'], case['other']
    a, b = model.build(spec, rng), model.build(spec, rng)
    mon.trivial = not (spec['ch'] or spec.get('md'))
    if rng.random() < .3:
        for o in objects(b):
            o.nsmap = rng.choice([None, {'q': 'urn:q'}])     # no part of equality
    A, B = list(objects(a)), list(objects(b))
    same(a, a, True, 'a corpus and itself')
    for x, y in zip(A, B):
        k = model.kind(x)
        same(x, y, True, 'two %s objects with the same content' % k)
        if k in ('corpus', 'igt', 'tier'):
            same(x.metadata, y.metadata, True, 'the metadata of two %s objects' % k)
        same(x, x, True, 'a %s and itself' % k)
        mon.hit('equal')
    specs = [n for n, _ in gen.walk(spec)]
    for _ in range(12):
        i, j = rng.randrange(len(A)), rng.randrange(len(A))
        same(A[i], B[j], plain(specs[i]) == plain(specs[j]),
             'a %s and a %s' % (specs[i]['k'], specs[j]['k']))
        mon.hit('equal' if plain(specs[i]) == plain(specs[j]) else 'unequal')
    for o in rng.sample(A, min(6, len(A))):
        for x in (None, 0, '', 'text', [], (), {}, object(), type(o), Odd(), list(o)
                  if model.kind(o) != 'item' else [o], float('nan'), {'id': o.id}):
            if isinstance(x, list) and not x and model.kind(o) == 'item':
                continue
            same(o, x, False, 'a %s and %s' % (model.kind(o), type(x).__name__))
            mon.hit('other kinds')
    # empty objects of all kinds
    cls = model.classes()
    empty = [c(*(['x'] if k == 'mc' else [])) for k, c in cls.items()]
    for i, x in enumerate(empty):
        for j, y in enumerate(empty):
            same(x, y, i == j, 'an empty %s and an empty %s' % (model.kind(x), model.kind(y)))
    if other is None:
        return edited(A, B, rng, mon)
    require(plain(spec) != plain(other), 'bad change')
    c = model.build(other, rng)
    same(a, c, False, 'corpora that differ in %s of a %s' % (case['change'],
                                                           specs[case['node']]['k']))
    mon.hit('unequal')
    mon.state(case['change'], specs[case['node']]['k'])
    # all objects on the way to the change differ, and nothing else does
    ospecs = [n for n, _ in gen.walk(other)]
    C = list(objects(c))
    if len(C) == len(A):
        for x, y, p, q in zip(A, C, specs, ospecs):
            same(x, y, plain(p) == plain(q), 'a %s and its changed copy' % p['k'])
        if specs[case['node']]['k'] not in ('corpus', 'igt'):
            mon.hit('deep change')
    edited(A, B, rng, mon)
