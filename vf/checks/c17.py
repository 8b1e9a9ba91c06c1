"""C17: metadata lookup returns the nearest matching level."""
import random

from .. import gen, model
from ..engine import require, short

ID = 'C17'
RULE = ('a case is a corpus with metadata on several levels; lookups by type and conditions, and '
        'selections by properties, are compared with an independent model; non-trivial: some lookup '
        'or selection finds something')
CASES = {'quick': 3000, 'thorough': 80000}
MIN_EVENTS = {'own level': 5000, 'outer level': 3000, 'default': 20000, 'selected': 15000,
              'several': 2500}
TYPES = ('language', 'comment', 'author')


def generate(rng, i, tier):
    o = gen.Opts(ns='declared', igts=(0, 3), tiers=(0, 3), items=(0, 4), maxlen=12, md=False,
                 attrs=False)
    spec = gen.gen_corpus(rng, o)
    for n, _ in list(gen.walk(spec)):
        if n['k'] in ('corpus', 'igt', 'tier') and rng.random() < .7:
            n['md'] = [metadata(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < .01:
        gen.widen(rng, spec, ('attributes', 'mds', 'metas', 'children'))
    return {'spec': spec, 'seed': rng.randint(0, 10 ** 9)}


def metadata(rng):
    return {'k': 'metadata', 'id': None, 'attrs': attrs(rng),
            'type': rng.choice(['xigt-meta'] * 4 + ['olac', None]),
            'ch': [{'k': 'meta', 'id': None, 'type': rng.choice(TYPES + (None,)),
                    'attrs': attrs(rng), 'text': rng.choice([None, '', 'a', 'b', 'deu']),
                    'ch': [{'k': 'mc', 'name': rng.choice(['x', 'y']), 'attrs': {},
                            'text': rng.choice([None, 't']), 'ch': [],
                            'ns': rng.choice([None, gen.DC, 'urn:x'])}
                           for _ in range(rng.choice([0, 0, 1, 3]))]}
                   for _ in range(rng.randint(0, 4))]}


def attrs(rng):
    return {k: rng.choice(['phrase', 'word', 'a', '1']) for k in ('tiers', 'name')
            if rng.random() < .4}


CONDITIONS = (
    ('has a text', lambda m: m.text, lambda n: n['text']),
    ('text is a', lambda m: m.text == 'a', lambda n: n['text'] == 'a'),
    ('has name', lambda m: 'name' in m.attributes, lambda n: 'name' in n['attrs']),
    ('tiers is word', lambda m: m.attributes.get('tiers') == 'word',
     lambda n: n['attrs'].get('tiers') == 'word'),
    ('has children', lambda m: len(m.children) > 0, lambda n: n['ch']),
    ('never', lambda m: False, lambda n: False),
    ('always', lambda m: True, lambda n: True),
)


def run(case, mon):
    rng = random.Random(case['seed'])
    spec = case['spec']
    xc = model.build(spec, rng)
    if rng.random() < .5:
        xc.nsmap = {'dc': gen.DC, 'x': 'urn:x'}
        spec['nsmap'] = {'dc': gen.DC, 'x': 'urn:x'}
    before = model.snapshot(xc)
    mon.trivial = True
    levels = [([spec], [xc])]
    for g, igt in zip(spec['ch'], xc):
        levels.append(([g, spec], [igt, xc]))
        for t, tier in zip(g['ch'], igt):
            levels.append(([t, g, spec], [tier, igt, xc]))
    for chain, objs in levels:
        for _ in range(8):
            key = rng.choice(TYPES + ('nope', None))
            conds = rng.sample(CONDITIONS, rng.choice([0, 0, 1, 1, 2]))
            if rng.random() < .01:      # very many
                conds = [CONDITIONS[-1]] * rng.choice([10, 40]) + conds
            lookup(chain, objs, key, conds, rng, mon)
        select(chain[0], objs[0], chain, rng, mon)
        for md, o in zip(chain[0].get('md') or [], objs[0].metadata):
            select(md, o, [md] + chain, rng, mon)
            for m, p in zip(md['ch'], o):
                select(m, p, [m, md] + chain, rng, mon)
    require(model.snapshot(xc) == before, 'the lookups change the corpus')


def lookup(chain, objs, key, conds, rng, mon):
    inherit = rng.random() < .7
    default = rng.choice([None, 'DEFAULT', []])
    want, level = None, None
    for k, (n, o) in enumerate(zip(chain, objs) if inherit else [(chain[0], objs[0])]):
        found = [p for md, omd in zip(n.get('md') or [], o.metadata) if md['type'] == 'xigt-meta'
                 for m, p in zip(md['ch'], omd)
                 if m['type'] == key and all(c[2](m) for c in conds)]
        if found:
            want, level = found, k
            break
    kw = {}
    if conds or rng.random() < .3:
        kw['conditions'] = [c[1] for c in conds]
        if rng.random() < .3:
            kw['conditions'] = tuple(kw['conditions'])
    if default is not None:
        kw['default'] = default
    if not inherit or rng.random() < .3:
        kw['inherit'] = inherit
    got = objs[0].get_meta(key, **kw)
    what = 'get_meta(%s, conditions %s, inherit=%s) of the %s' % (
        key, [c[0] for c in conds], inherit, chain[0]['k'])
    if want is None:
        require(got is default, '{} is {}, not the default', what, short(got))
        mon.hit('default')
        return
    got = list(got)
    require(len(got) == len(want) and all(p is q for p, q in zip(got, want)),
            '{} is {}, not {}', what, short(got), short(want))
    mon.trivial = False
    mon.hit('own level' if level == 0 else 'outer level')
    if len(want) > 1:
        mon.hit('several')
    mon.state(chain[0]['k'], level, len(want), len(conds))


def value(n, prop):
    if prop == 'namespace':
        return n.get('ns')
    if prop in ('alignment', 'content', 'segmentation'):
        return n['attrs'].get(prop) if n['k'] in ('tier', 'item') else None
    if prop == 'text' and n['k'] not in ('item', 'meta', 'mc'):
        return None
    return n.get(prop)


def select(n, obj, chain, rng, mon):
    kids = list(zip(n.get('ch') or [], obj))
    scope = next((c['nsmap'] for c in chain if c.get('nsmap') is not None), {})
    props = ('id', 'type', 'text', 'name', 'namespace', 'alignment', 'segmentation', 'nope')
    for _ in range(4):
        kw = {}
        for p in rng.sample(props, rng.choice([0, 1, 1, 1, 2, 2, 3])):
            values = [value(x, p) for x, _ in kids] + [None, 'nope']
            kw[p] = rng.choice(values[:len(kids)] or values) if rng.random() < .8 \
                else rng.choice(values)
            if p == 'text' and n['k'] in ('igt', 'corpus'):
                kw.pop(p)
            if p == 'text' and n['k'] not in ('tier', 'metadata', 'meta', 'mc'):
                kw.pop(p, None)
        want = [y for x, y in kids if all(value(x, p) == v for p, v in kw.items())]
        if kw.get('namespace') is not None:
            # a namespace may be given by its prefix
            ps = [p for p, u in scope.items() if u == kw['namespace']]
            if ps and rng.random() < .6:
                kw['namespace'] = rng.choice(ps)
            elif kw['namespace'] in scope:
                continue
        got = list(obj.select(**kw))
        require(len(got) == len(want) and all(p is q for p, q in zip(got, want)),
                'selecting {} from the {} gives {}, not {}', kw, n['k'], short(got), short(want))
        if got:
            mon.hit('selected')
            mon.trivial = False
