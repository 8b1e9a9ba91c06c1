"""C16: attribute lookup honours namespaces and inheritance."""
import random

from .. import gen, model
from ..engine import require, short

ID = 'C16'
RULE = ('a case is a corpus with attributes and prefix declarations on all levels, and a history of '
        'changes to them; every kind of lookup on every object is compared with an independent model '
        'of scopes; non-trivial: some attribute is found')
CASES = {'quick': 2500, 'thorough': 60000}
MIN_EVENTS = {'found': 60000, 'inherited': 30000, 'default': 60000, 'namespaced': 20000,
              'rebound prefix': 800, 'scopes': 20000}


def generate(rng, i, tier):
    o = gen.Opts(ns='any', igts=(0, 2), tiers=(0, 3), items=(0, 2), maxlen=12, ids='some',
                 refs=rng.choice(['mixed', 'none']))
    spec = gen.gen_corpus(rng, o)
    names = [rng.choice(gen.ATTR_NAMES) for _ in range(3)]
    uris = [rng.choice(gen.URIS[:3] + gen.URIS[4:6]) for _ in range(2)]
    for n, _ in gen.walk(spec):
        if n.get('nsmap') == {}:
            n['nsmap'] = None
        if rng.random() < .3:
            n['nsmap'] = {p: rng.choice(uris + list(gen.URIS[:6]))
                          for p in rng.sample(gen.PREFIXES[:5], rng.randint(1, 3))}
        for _ in range(rng.choice([0, 1, 1, 2])):
            key = rng.choice(names)
            if rng.random() < .5:
                key = '{%s}%s' % (rng.choice(uris), key)
            n['attrs'][key] = rng.choice(['', gen.text(rng, maxlen=12), 'v%d' % rng.randint(0, 99)])
    return {'spec': spec, 'names': names, 'uris': uris, 'seed': rng.randint(0, 10 ** 9)}


def pairs(n, obj, chain=()):
    """(chain of specs, innermost first; object)"""
    chain = (n,) + chain
    yield chain, obj
    if n['k'] in ('corpus', 'igt', 'tier'):
        for x, y in zip(n.get('md') or [], obj.metadata):
            yield from pairs(x, y, chain)
    if n['k'] != 'item':
        for x, y in zip(n.get('ch') or [], obj):
            yield from pairs(x, y, chain)


def scope(chain):
    for n in chain:
        if n.get('nsmap') is not None:
            return n['nsmap']
    return {}


def lookup(chain, key, default, inherit):
    for n in chain if inherit else chain[:1]:
        if key in n['attrs']:
            return n['attrs'][key]
    return default


def run(case, mon):
    rng = random.Random(case['seed'])
    spec = case['spec']
    xc = model.build(spec, rng)
    everything = list(pairs(spec, xc))
    mon.trivial = True
    for rnd in range(3):
        chosen = everything if len(everything) <= 25 else rng.sample(everything, 25)
        for chain, obj in chosen:
            sc = scope(chain)
            require(dict(obj.nsmap) == sc, 'the prefixes of {} are {}, not {}', chain[0]['k'],
                    short(dict(obj.nsmap)), short(sc))
            mon.hit('scopes')
            names = case['names'] + sorted(set(k.rsplit('}')[-1] for n in chain
                                               for k in n['attrs']))[:4]
            for name in names:
                if ':' in name:
                    continue
                look(obj, chain, mon, name, None, name, rng)
                for uri in case['uris'] + sorted(set(sc.values()))[:3]:
                    q = '{%s}%s' % (uri, name)
                    look(obj, chain, mon, q, None, q, rng)
                    if uri not in sc:
                        look(obj, chain, mon, name, uri, q, rng)
                for p, uri in sorted(sc.items()):
                    q = '{%s}%s' % (uri, name)
                    look(obj, chain, mon, p + ':' + name, None, q, rng)
                    look(obj, chain, mon, name, p, q, rng)
                    if any(n.get('nsmap', None) and n['nsmap'].get(p, uri) != uri
                           for n in chain):
                        mon.hit('rebound prefix')
            if len(chain) > 1:
                mon.state(chain[0]['k'], len(chain), len(sc))
        for chain, obj in rng.sample(everything, min(4, len(everything))):
            change(chain[0], obj, case, rng)


def look(obj, chain, mon, key, namespace, qualified, rng):
    kw = {} if namespace is None else {'namespace': namespace}
    for inherit in (False, True):
        if rng.random() < .5:
            continue
        default = rng.choice([None, 'DEFAULT', ''])
        want = lookup(chain, qualified, default, inherit)
        style = rng.randint(0, 2)
        if style == 0 and default is None:
            got = obj.get_attribute(key, inherit=inherit, **kw)
        elif style == 1:
            got = obj.get_attribute(key, default, inherit, namespace)
        else:
            got = obj.get_attribute(key, default=default, inherit=inherit, **kw)
        require(got == want and type(got) is type(want), 'get_attribute({}, namespace={}, '
                'inherit={}) of the {} is {}, not {}', key, namespace, inherit, chain[0]['k'],
                short(got), short(want))
        if qualified in chain[0]['attrs']:
            mon.hit('found')
            mon.trivial = False
        elif inherit and any(qualified in n['attrs'] for n in chain):
            mon.hit('inherited')
        else:
            mon.hit('default')
        if qualified != key or namespace:
            mon.hit('namespaced')


def change(n, obj, case, rng):
    r = rng.random()
    if r < .4:
        new = rng.choice([None, {rng.choice(gen.PREFIXES[:5]): rng.choice(case['uris']),
                                 'zz': 'urn:zz'}])
        obj.nsmap = new
        n['nsmap'] = None if new is None else dict(new)
    elif r < .7 and n['attrs']:
        k = rng.choice(sorted(n['attrs']))
        del n['attrs'][k]
        del obj.attributes[k]
    else:
        k = rng.choice(case['names'] + ['{%s}%s' % (case['uris'][0], case['names'][0])])
        n['attrs'][k] = obj.attributes[k] = 'changed'
