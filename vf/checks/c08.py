"""C08: parent links follow containment, and rejected operations change nothing."""
import random

from .. import containers, gen, model
from ..engine import require

ID = 'C08'
RULE = ('a case is a kind of container and a history of operations, half of them invalid, with the '
        'parent of every object and what it inherits observed before and after each; or a corpus '
        'built by a random mix of construction routes; non-trivial: at least three operations')
CASES = {'quick': 7000, 'thorough': 200000}
MIN_EVENTS = {'operations': 50000, 'rejected': 20000, 'built': 600, 'placed a second time': 2000, 'given': 4000}


def generate(rng, i, tier):
    if rng.random() < .15:
        return {'build': gen.gen_corpus(rng, gen.Opts(ns='declared', igts=(0, 2), tiers=(0, 3),
                                                      items=(0, 3))),
                'seed': rng.randint(0, 10 ** 9)}
    return containers.generate(rng, i, .5, 24 if tier == 'quick' else 50)


def run(case, mon):
    if 'build' in case:
        rng = random.Random(case['seed'])
        xc = model.build(case['build'], rng)
        model.check_links(xc)
        inherits(xc)
        mon.hit('built')
        given(xc, rng, mon)
        shared(xc, rng, mon)
        return
    containers.run(case, mon, deep=True)


GIVEN = {'igt': 'corpus', 'tier': 'igt', 'item': 'tier', 'meta': 'metadata', 'mc': 'parent'}


def given(xc, rng, mon):
    """Objects that are given the object they belong to when they are made refer
    to it although it does not contain them, until another one does."""
    cls = model.classes()
    todo = [xc]
    while todo:
        a = todo.pop()
        k = model.kind(a)
        if k == 'item':
            continue
        todo += list(a) + (list(a.metadata) if k in ('corpus', 'igt', 'tier') else [])
        kid = {'corpus': 'igt', 'igt': 'tier', 'tier': 'item', 'metadata': 'meta', 'meta': 'mc',
               'mc': 'mc'}[k]
        if k == 'metadata' and rng.random() < .3:
            continue
        before = model.snapshot(xc)
        pos = ['given'] if kid == 'mc' else []
        o = cls[kid](*pos, **{GIVEN[kid]: a})
        require(model.is_parent(a, o), 'a {} made with {}= does not belong to it', kid, GIVEN[kid])
        require(o.nsmap == a.nsmap, 'a {} made with {}= has the prefixes {}, not {}', kid,
                GIVEN[kid], o.nsmap, a.nsmap)
        for x, v in a.attributes.items():
            if ':' not in x or x.startswith('{'):
                require(o.get_attribute(x, inherit=True) == v,
                        'a {} made with {}= does not inherit {}', kid, GIVEN[kid], x)
        if kid == 'item':
            require(o.igt is a.igt and o.corpus is xc, 'an item made with tier= has another igt')
        d = model.diff(before, model.snapshot(xc))
        require(d is None, 'making a {} with {}= changes that: {}', kid, GIVEN[kid], d)
        b = cls[k](*(['other'] if k == 'mc' else []))
        how = rng.choice(['append', 'ctor', 'insert'])
        if how == 'ctor':
            b = cls[k](*(['other'] if k == 'mc' else []), **{model.KIDS[k]: [o]})
        elif how == 'append':
            b.append(o)
        else:
            b.insert(0, o)
        require(model.is_parent(b, o) and list(b)[0] is o,
                'a {} made with {}= does not belong to what contains it later ({})', kid,
                GIVEN[kid], how)
        mon.hit('given')


def shared(xc, rng, mon):
    """Objects that belong to one object already are given to another one: they
    are the same objects then, with all they have, and belong to the new one."""
    todo = [xc]
    while todo:
        a = todo.pop()
        k = model.kind(a)
        if k == 'item':
            continue
        kids = list(a)
        mds = list(a.metadata) if k in ('corpus', 'igt', 'tier') else []
        todo += kids + mds
        if not kids and not mds:
            continue
        owning = set()
        for o in kids + mds:
            o.nsmap = None
            if rng.random() < .4:
                o.nsmap = {'own': 'urn:own'}
                owning.add(id(o))
        kw, pos = {}, []
        if k == 'mc':
            pos = ['other']
        own = [(o, model.snapshot(o, scope=False), id(o) in owning) for o in kids + mds]
        how = rng.choice(['ctor', 'ctor', 'setter', 'append'])
        seq = rng.choice([list, tuple])
        cls = model.classes()[k]
        if how == 'ctor':
            kw[model.KIDS[k]] = seq(kids)
            if mds:
                kw['metadata'] = seq(mds)
            b = cls(*pos, nsmap={'out': 'urn:out'}, **kw)
        else:
            b = cls(*pos, nsmap={'out': 'urn:out'})
            if how == 'setter':
                setattr(b, model.KIDS[k], seq(kids))
                if mds:
                    b.metadata = seq(mds)
            else:
                for o in kids:
                    b.append(o)
                for o in mds:
                    b.metadata.append(o)
        for what, got, want in (('children', list(b), kids),
                                ('metadata', list(b.metadata) if mds else [], mds)):
            require(len(got) == len(want) and all(p is q for p, q in zip(got, want)),
                    '{} of a {} given to another one ({}) are not the same objects there', what,
                    k, how)
        for o, snap, has in own:
            require(model.is_parent(b, o), 'a {} moved to another {} ({}) does not belong to it',
                    model.kind(o), k, how)
            d = model.diff(snap, model.snapshot(o, scope=False))
            require(d is None, 'a {} given to another {} ({}) has changed: {}', model.kind(o), k,
                    how, d)
            require(('own' in o.nsmap) == has and ('out' in o.nsmap) != has,
                    'a {} given to another {} ({}) has other prefixes: {}', model.kind(o), k, how,
                    o.nsmap)
        model.check_links(b, 'after moving (%s): ' % how)
        mon.hit('placed a second time', len(own))
        a.clear()


def inherits(obj, ns=None, attrs=None):
    """Attributes, prefixes and metadata of the enclosing objects are seen."""
    k = model.kind(obj)
    attrs = dict(attrs or {})
    attrs.update(obj.attributes)
    for a, v in attrs.items():
        if ':' in a and not a.startswith('{'):
            continue
        require(obj.get_attribute(a, inherit=True) == v,
                '{} {} does not inherit the attribute {}', k, obj.id, a)
    if k == 'item':
        require(obj.igt is obj.tier.igt and obj.corpus is obj.igt.corpus, 'wrong igt or corpus')
        return
    if k == 'tier':
        require(obj.corpus is obj.igt.corpus, 'wrong corpus')
    for x in list(obj) + (list(obj.metadata) if k in ('corpus', 'igt', 'tier') else []):
        inherits(x, None, attrs)
