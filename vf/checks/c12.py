"""C12: referents and referrers are two views of one relation."""
import random

from .. import edits, gen, graphs, model, refmodels
from ..engine import Violation, require, short
from ..gen import REFATTRS

ID = 'C12'
RULE = ('a case is an IGT with any reference graph, unknown ids and further attributes included; '
        'for every object, and all or chosen attributes, both views are compared with the relation '
        'read off the attributes by an independent scanner; non-trivial: some object refers to one')
CASES = {'quick': 4500, 'thorough': 100000}
MIN_EVENTS = {'objects': 30000, 'pairs': 40000, 'lookup errors': 8000, 'dereferenced': 20000,
              'mixed': 8000, 'observed again': 3000}
EXTRA = ('head', 'dep', 'children')


def generate(rng, i, tier):
    if rng.random() < .15:
        g = gen.natural_igt(rng, 'i1', rng.randint(1, 4))
    else:
        large = rng.choice([{}, {'items': (90, 260)}]) if rng.random() < .004 else None
        n = 130 if large == {} else 3 if large else rng.randint(1, 7)
        g = graphs.gen_graph(rng, n, **large or {}, dangling=.05, noid=rng.choice([0, 0, .15]),
                             extra=EXTRA[:rng.randint(0, 3)])
    return {'spec': g, 'seed': rng.randint(0, 10 ** 9)}


def run(case, mon):
    rng = random.Random(case['seed'])
    g = case['spec']
    igt = model.build(g, rng)
    if rng.random() < .3:
        edit(g, igt, rng)
    observe(g, igt, rng, mon)
    if len(g['ch']) < 20 and rng.random() < .5:
        ops = edits.change(g, igt, rng)
        mon.hit('observed again', len(ops))
        observe(g, igt, rng, mon)


def observe(g, igt, rng, mon):
    from xigt import ref
    from xigt.errors import XigtLookupError
    objs = [(t['id'], t['attrs'], o, True) for t, o in zip(g['ch'], igt)] + \
        [(x['id'], x['attrs'], o, False) for t, u in zip(g['ch'], igt)
         for x, o in zip(t['ch'], u)]
    table = [(o[0], o[1]) for o in objs]
    allattrs = REFATTRS + EXTRA
    relation = set()      # what the attributes say
    seen = {}             # what the two views say
    for i, attrs, o, is_tier in objs:
        for ra in allattrs:
            if i is not None:
                relation.update((i, ra, x) for x in refmodels.referents(attrs, ra))
    some = objs if len(objs) < 120 else rng.sample(objs, 20)
    for i, attrs, o, is_tier in some:
        if i is None:
            for fn in (o.referents, o.referrers):
                fails(fn, 'an object without id')
            continue
        mon.hit('objects')
        chosen = tuple(rng.sample(allattrs, rng.randint(1, 4)))
        for ras in (None, REFATTRS, chosen, list(chosen), ()):
            for fn in (lambda: ref.referents(igt, i, ras), lambda: ref.referents(igt, i, refattrs=ras),
                       lambda: igt.referents(i, refattrs=ras), lambda: o.referents(refattrs=ras)):
                got = fn()
                for ra in (REFATTRS if ras is None else ras):
                    want = refmodels.referents(attrs, ra)
                    require(list(got.get(ra, [])) == want, 'the referents of {} by {} are {}, '
                            'not {}', i, ra, got.get(ra), want)
                extra = [k for k in got if got[k] and k not in (REFATTRS if ras is None else ras)]
                require(not extra, 'unexpected attributes {}', extra)
                if ras is not None:
                    mine(got)
            for n, fn in enumerate((lambda: ref.referrers(igt, i, refattrs=ras),
                                    lambda: ref.referrers(igt, i, ras),
                                    lambda: igt.referrers(i, refattrs=ras),
                                    lambda: o.referrers(refattrs=ras))):
                got = fn()
                for ra in (REFATTRS if ras is None else ras):
                    want = refmodels.referrers(table, i, ra)
                    require(list(got.get(ra, [])) == want, 'the referrers of {} by {} are {}, '
                            'not {}', i, ra, got.get(ra), want)
                    if n == 0:
                        seen.setdefault((i, ra), set()).update(got.get(ra, []))
                extra = [k for k in got if got[k] and k not in (REFATTRS if ras is None else ras)]
                require(not extra, 'unexpected attributes {}', extra)
                if ras is not None:
                    mine(got)
    known = {i: (o, t) for i, _, o, t in objs if i is not None}
    # each view is the inverse of the other
    for (i, ra), back in seen.items():
        for j in back:
            require((j, ra, i) in relation, '{} is no referrer of {} by {}', j, i, ra)
    for i, ra, j in relation:
        mon.trivial = False
        if j in known and (j, ra) in seen:
            mon.hit('pairs')
            require(i in seen[j, ra], '{} refers to {} by {}, but is not among its referrers', i,
                    j, ra)
    mon.trivial = not relation
    # one object, or all of them, behind an attribute
    for i, attrs, o, is_tier in some:
        for ra in allattrs:
            ids = refmodels.referents(attrs, ra)
            if ra not in attrs or not ids:
                continue
            objs_ = [known.get(j, (None,))[0] for j in ids]
            mon.hit('dereferenced')
            require(ref.dereference(o, ra) is objs_[0], 'dereferencing {} of {} gives {}', ra, i,
                    short(ref.dereference(o, ra)))
            got = ref.dereference_all(o, ra)
            require(len(got) == len(objs_) and all(p is q for p, q in zip(got, objs_)),
                    'dereferencing {} of {} gives {}', ra, i, short(got))
            got.clear()
    # tiers may be meant as well as items
    for i, attrs, o, is_tier in rng.sample(objs, min(6, len(objs))):
        ids = rng.sample(sorted(known), min(len(known), rng.randint(1, 3)))
        if not ids:
            continue
        o.attributes['mixed'] = ' '.join(ids)
        want = [known[j][0] for j in ids]
        got = ref.dereference_all(o, 'mixed')
        require(len(got) == len(want) and all(p is q for p, q in zip(got, want))
                and ref.dereference(o, 'mixed') is want[0],
                'dereferencing {} gives {}', o.attributes['mixed'], short(got))
        del o.attributes['mixed']
        mon.hit('mixed')
    for t, tier in zip(g['ch'], igt):
        for ra in gen.REFATTRS:
            aligned(ref, igt, t, tier, ra, mon)
    detached(g, rng, mon)
    for fn in (ref.dereference, ref.dereference_all):
        for x in (igt, object()):
            fails(lambda: fn(x, 'alignment'), 'dereferencing from other objects',
                  XigtLookupError)
    for i in ('nope', 'w999', 'zz.top', 'A'):
        if i in known:
            continue
        mon.hit('lookup errors')
        for ras in (REFATTRS, ('alignment',), ['head']):
            for fn in (lambda: ref.referents(igt, i, ras), lambda: igt.referents(i, refattrs=ras),
                       lambda: ref.referrers(igt, i, ras), lambda: igt.referrers(i, refattrs=ras)):
                fails(fn, 'the unknown id ' + i, XigtLookupError)
        fails(lambda: ref.referents(igt, i), 'the unknown id ' + i, XigtLookupError)
        fails(lambda: ref.referrers(igt, i), 'the unknown id ' + i, XigtLookupError)
    mon.state(len(g['ch']), min(len(relation), 30))


def mine(got):
    """The lists are the caller's, who may change them."""
    for k in list(got):
        got[k].append('mine')
        got[k].reverse()
    got.clear()


def edit(g, igt, rng):
    """Change some reference attributes, as a plain attribute or by name."""
    for t, o in zip(g['ch'], igt):
        for x, p in [(t, o)] + list(zip(t['ch'], o)):
            if rng.random() < .2 and x['attrs']:
                ra = rng.choice(sorted(x['attrs']))
                if ra in REFATTRS and rng.random() < .5:
                    new = (refmodels.ids(x['attrs'][ra]) or ['nope'])[-1]
                    other = {'segmentation': ('content', 'alignment')}.get(ra, ('segmentation',))
                    if any(a in x['attrs'] for a in other):
                        p.attributes[ra] = new    # a property does not allow the combination
                    else:
                        setattr(p, ra, new)
                    x['attrs'][ra] = new
                else:
                    del x['attrs'][ra]
                    del p.attributes[ra]
    igt.refresh_indices()


def aligned(ref, igt, t, tier, ra, mon):
    """The (deprecated) lookup of the tier another one refers to"""
    if ra not in t['attrs']:
        fails(lambda: ref.get_aligned_tier(tier, ra), 'the missing ' + ra)
        return
    got = ref.get_aligned_tier(tier, ra)
    want = next((o for o in igt if o.id == t['attrs'][ra]), None)
    require(got is want, 'the tier that {} of {} refers to is {}', ra, t['id'], short(got))
    mon.hit('aligned tiers')


def detached(g, rng, mon):
    """Objects that belong to no IGT have no relation to look at."""
    import xigt
    if not g['ch']:
        return
    t = rng.choice(g['ch'])
    tier = xigt.Tier(id=t['id'], attributes=dict(t['attrs']), items=[
        xigt.Item(id=x['id'], attributes=dict(x['attrs'])) for x in t['ch'][:2]])
    gone = xigt.Item(id='gone', attributes={'alignment': 'a1'})
    tier.append(gone)
    tier.remove(gone)
    for o in [tier, *tier]:
        for ras in (None, ['alignment']):
            for fn in (o.referents, o.referrers):
                fails(lambda: fn(refattrs=ras), 'the missing IGT of a %s' % model.kind(o))
                mon.hit('detached')


def fails(fn, what, error=None):
    from xigt.errors import XigtError
    try:
        r = fn()
    except error or XigtError:
        return
    raise Violation('%s is not reported, but gives %s' % (what, short(r)))
