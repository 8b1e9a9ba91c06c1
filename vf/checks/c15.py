"""C15: XigtPath queries return exactly the nodes their meaning denotes."""
import random

from .. import gen, graphs, keys, model, paths
from ..engine import Violation, require, short

ID = 'C15'
RULE = ('a case is a corpus and a list of generated XigtPaths with a context object each; the '
        'results are compared, by identity and in order, with an independent evaluation of the '
        'syntax tree; non-trivial: some path selects something')
CASE_TIMEOUT = 250
CASES = {'quick': 7000, 'thorough': 150000}
MIN_EVENTS = {'paths': 40000, 'nonempty': 15000, 'attr': 8000, 'desc': 8000, 'func': 3000,
              'group': 4000, 'predicate': 8000, 'up': 3000, 'absolute': 8000, 'namespaced': 500}
ASSUMPTIONS = ['Names with a dot, predicates inside predicates, attributes after //, @prefix:*, '
               'text() on objects that have none, and reference functions on objects without id '
               'or with dangling references are not part of the language; prefixes are declared '
               'at the corpus; absent values (None) are not counted as results.']


def generate(rng, i, tier):
    n = rng.choice([0, 1, 1, 2, 3])
    spec = gen.gen_corpus(rng, gen.Opts(ns='declared', igts=(n, n), tiers=(0, 0), nsmaps=False,
                                        texts='any', maxlen=30))
    plain = rng.random() < .6
    if rng.random() < .75:
        spec['nsmap'] = {'dc': gen.DC, 'olac': gen.OLAC, 'x': 'urn:x'}
        uris = sorted(spec['nsmap'].values())
    else:
        uris = []
    o = gen.Opts(ns=False, nsmaps=False, maxlen=30)
    for g in spec['ch']:
        if rng.random() < .3:
            g['ch'] = gen.natural_igt(rng, 'i', rng.randint(1, 3))['ch']
        else:
            g['ch'] = graphs.gen_graph(rng, rng.randint(0, 4), cyclic=0, multi=0, bad=0)['ch']
        for t in g['ch']:
            if rng.random() < .2:
                t['md'] = gen.gen_mds(rng, o, {}, 1)
            for x in [t] + t['ch']:
                if rng.random() < .2:
                    x['attrs'].update(gen.gen_attrs(rng, {}, o))
    for n, _ in list(gen.walk(spec)):
        if uris and rng.random() < .2:
            n['attrs']['{%s}%s' % (rng.choice(uris), rng.choice(['lang', 'n', 'value']))] = 'ns'
        if n['k'] == 'mc':
            if uris and rng.random() < .6:
                n['ns'] = rng.choice(uris)
            if plain and n['name'] in paths.ALL:
                n['name'] = 'x-' + n['name']
    large = rng.random() < .004
    if large:
        gen.swell(rng, spec)
    elif rng.random() < .004:
        gen.widen(rng, spec, ('attributes', 'mds', 'metas', 'children'), (12, 40, 70))
        large = True
    doc = paths.Doc(spec, model.build(spec))
    qs = []
    for _ in range(4 if large else 20):
        k = rng.randrange(len(doc.nodes)) if rng.random() < .5 else 0
        p = paths.Gen(rng, doc).path({doc.nodes[k]['k']}, downward=rng.random() < .3)
        if rng.random() < .004 and not large:
            p = paths.grow(rng, doc, p)
        qs.append([k, p, rng.random() < .2])
    if rng.random() < .01:      # a long value
        some = [n for n in doc.nodes if n['k'] == 'item' and n.get('text')]
        if some:
            some = rng.choice(some)
            some['text'] = some['text'] * rng.choice([20, 90])
            qs.append([0, keys.P(('//item', keys.eq('text()', some['text'])), abs='/'), False])
    if large:
        far = {'path': keys.P('.', '//*', '@id'), 'op': rng.choice(['=', '!=']),
               'val': rng.choice([n['id'] for n in doc.nodes[-9:] if n.get('id')] or ['zz'])}
        for q in (keys.P('//*'), keys.P('*', '*', '@id'), keys.P(('.', far)), keys.P(('igt', far)),
                  keys.P('*', '..'), keys.P('//item', '..', '..')):
            qs.append([0, q, False])
    return {'spec': spec, 'qs': qs, 'seed': rng.randint(0, 10 ** 9)}


def run(case, mon):
    from xigt import xigtpath as xp
    rng = random.Random(case['seed'])
    xc = model.build(case['spec'], rng)
    doc = paths.Doc(case['spec'], xc)
    index = {id(n): k for k, n in enumerate(doc.nodes)}
    before = model.snapshot(xc) if rng.random() < .2 else None
    mon.trivial = True
    for k, p, spaces in case['qs']:
        n = doc.nodes[k]
        text = paths.render(p, rng, .25 if spaces else 0)
        what = '%s from a %s' % (text, n['k'])
        want = compare(doc, n, p, text, what)
        count(p, mon)
        mon.hit('paths')
        if want:
            mon.hit('nonempty')
            mon.trivial = False
            mon.state(n['k'], [(s['axis'], s.get('test'), len(s.get('preds') or []))
                               for s in p['steps']])
        if only_down(p) and '@*' not in text:
            # document order, and nothing twice
            idx = [index[id(doc.node_of[id(x)])] for x in want if not isinstance(x, str)]
            if all(s['axis'] != 'desc' for s in p['steps'][:-1]):
                require(idx == sorted(set(idx)), '{} is not in document order', what)
        if rng.random() < .05:
            for bad in (text + '/', '(' + text, '(%s|)' % text, '(|%s)' % text, '()'):
                try:
                    xp.findall(doc.obj[id(n)], bad)
                except xp.XigtPathError:
                    mon.hit('malformed')
                else:
                    raise Violation('the path %s is accepted' % bad)
            require(xp.findall(doc.obj[id(n)], '') == [] and xp.find(doc.obj[id(n)], '') is None,
                    'an empty path selects something')
    if before is not None:
        require(model.snapshot(xc) == before, 'querying changes the corpus')
    if len(case['qs']) < 12 or not case['spec']['ch'] or rng.random() < .5:
        return
    # the same objects in another corpus, some of them elsewhere within it
    spec = case['spec']
    moved = list(range(len(xc)))
    rng.shuffle(moved)
    moved = moved[:rng.randint(1, len(moved))]
    igts = list(xc)
    other = model.build(dict(spec, ch=[]), rng)
    for j in moved:
        if rng.random() < .7:
            xc.remove(igts[j])
        other.append(igts[j])
    there = dict(spec, ch=[spec['ch'][j] for j in moved])
    for g, go in zip(there['ch'], other):
        if len(g['ch']) > 1 and rng.random() < .5:
            go.append(go.pop(0))
            g['ch'].append(g['ch'].pop(0))
    doc2 = paths.Doc(there, other)
    k = moved[0]
    inside = [x for x in doc2.nodes if doc2.igt[id(x)] is spec['ch'][k]]
    for q in case['qs']:
        n = doc.nodes[q[0]]
        if id(n) not in doc2.obj:
            alike = [x for x in inside if q[1]['abs'] or x['k'] == n['k']]
            if not alike:
                continue
            n = rng.choice(alike)
        text = paths.render(q[1], rng, 0)
        want = compare(doc2, n, q[1], text, '%s from a %s moved to another corpus' % (text, n['k']))
        mon.hit('moved', len(want) > 0)


def compare(doc, n, p, text, what):
    from xigt import xigtpath as xp
    obj = doc.obj[id(n)]
    want = [x if isinstance(x, str) else doc.obj[id(x)] for x in paths.evaluate(doc, [n], p)]
    raw = xp.findall(obj, text)
    require(type(raw) is list, '{}: findall gives no list', what)
    got = [x for x in raw if x is not None]
    if '@*' in text:      # attributes are in no particular order
        got = sorted(got, key=lambda x: (isinstance(x, str), x if isinstance(x, str) else id(x)))
        want = sorted(want, key=lambda x: (isinstance(x, str),
                                           x if isinstance(x, str) else id(x)))
    require(len(got) == len(want) and all(
        a == b and type(a) is type(b) if isinstance(b, str) else a is b
        for a, b in zip(got, want)),
        '{} selects {}, not {}', what, names(got, doc), names(want, doc))
    first = xp.find(obj, text)
    require(first is (raw[0] if raw else None) or first == raw[0] and isinstance(first, str),
            'the first match of {} is {}', what, short(first))
    lazy = [x for x in xp.iterfind(obj, text)]
    require(len(lazy) == len(raw) and all(a is b or a == b and isinstance(b, str)
                                          for a, b in zip(lazy, raw)),
            'the lazy matches of {} differ', what)
    return want


def only_down(p):
    return all(s['axis'] in ('child', 'desc', 'self') for s in p['steps'])


def count(p, mon):
    if p['abs']:
        mon.hit('absolute')
    for s in p['steps']:
        mon.hit(s['axis'])
        if ':' in (s.get('test') or ''):
            mon.hit('namespaced')
        mon.hit('predicate', len(s.get('preds') or []))
        for q in s.get('paths') or []:
            count(q, mon)


def names(objs, doc):
    return short([x if isinstance(x, str) else '%s %s' % (
        model.kind(x), getattr(x, 'name', None) or getattr(x, 'id', None)) for x in objs], 600)
