"""C13: ancestor and descendant walks are truthful, complete and finite."""
import random

from .. import edits, gen, graphs, model, refmodels
from ..engine import require

ID = 'C13'
RULE = ('a case is an IGT with any reference graph, cycles included; walks from every tier and item, '
        'for several choices of attributes and both follow modes, are compared with an independent '
        'walk over the specification and held to a budget of logical steps; non-trivial: some walk '
        'has two steps')
CASES = {'quick': 3500, 'thorough': 90000}
MIN_EVENTS = {'ancestor walks': 60000, 'descendant walks': 60000, 'cyclic': 3000, 'steps': 100000,
              'items reached': 100000, 'observed again': 2500}
BUDGET = 3000000


def generate(rng, i, tier):
    if rng.random() < .2:
        g = gen.natural_igt(rng, 'i1', rng.randint(1, 4))
    else:
        # similar ids: one is contained in the other
        large = rng.choice([{}, {'items': (90, 260)}]) if rng.random() < .004 else None
        n = 40 if large == {} else 3 if large else rng.randint(1, 7)
        long = large is None and rng.random() < .025    # a long chain, or cycle, of tiers
        if long:
            n = rng.randint(9, 30)
        g = graphs.gen_graph(rng, n, **large or {}, cyclic=rng.choice([0, .2, .5, 1]),
                             multi=rng.choice([0, .1]), noid=rng.choice([0, 0, 0, .1]),
                             tnoid=0, line=1 if long else .06)
    return {'spec': g, 'seed': rng.randint(0, 10 ** 9)}


def run(case, mon):
    rng = random.Random(case['seed'])
    g = case['spec']
    igt = model.build(g, rng)
    mon.trivial = True
    observe(case, g, igt, rng, mon)
    if len(g['ch']) < 20 and rng.random() < .5:
        # the same igt, changed; all references are still to some tier
        ops = edits.change(g, igt, rng)
        mon.hit('observed again', len(ops))
        observe(case, g, igt, rng, mon)


def observe(case, g, igt, rng, mon):
    from xigt import query
    before = model.snapshot(igt, False)
    orders = [None, ('alignment', 'segmentation'), ('segmentation', 'alignment', 'content'),
              ('content',), ('alignment',), ['segmentation'], ()]
    pos = {id(t): k for k, t in enumerate(igt)}
    ipos = {id(x): (k, j) for k, t in enumerate(igt) for j, x in enumerate(t)}

    def plain(walk):
        r = []
        for t, ra, u, items in walk:
            for x in items:
                require(id(x) in ipos and ipos[id(x)][0] == pos[id(u)],
                        'the item {} is not on the tier {}', x.id, u.id)
            r.append((pos[id(t)], ra, pos[id(u)], [ipos[id(x)][1] for x in items]))
        return r
    starts = [(k, None) for k in range(len(igt))] + sorted(ipos.values())
    if len(starts) > 14:
        starts = rng.sample(starts, 14)
    for k, j in starts:
        obj = igt[k] if j is None else igt[k][j]
        items = list(range(len(igt[k]))) if j is None else [j]
        for ras in rng.sample(orders, 3):
            kw = {} if ras is None else {'refattrs': ras}
            got = mon.terminates(lambda: plain(query.ancestors(obj, **kw)), BUDGET,
                                 'walking the ancestors')
            want = refmodels.ancestors(g, k, items, ras or
                                       (('alignment', 'segmentation') if ras is None else ()))
            compare(got, want, 'the ancestors', case, k, j, ras)
            mon.hit('ancestor walks')
            steps(mon, got)
            if len(set(x[2] for x in got)) < len(got) or any(x[2] == k for x in got):
                mon.hit('cyclic')
            for follow in ('first', 'all'):
                kw2 = dict(kw)
                if follow != 'first' or rng.random() < .5:
                    kw2['follow'] = follow
                got = mon.terminates(lambda: plain(query.descendants(obj, **kw2)), BUDGET,
                                     'walking the descendants')
                want = refmodels.descendants(g, k, items, ras if ras is not None else
                                             ('segmentation', 'alignment'), follow)
                compare(got, want, 'the descendants (%s)' % follow, case, k, j, ras)
                mon.hit('descendant walks')
                steps(mon, got)
    require(model.snapshot(igt, False) == before, 'walking changes the igt')


def steps(mon, got):
    mon.hit('steps', len(got))
    mon.hit('items reached', sum(len(x[3]) for x in got))
    mon.state(tuple((t, ra, u, len(i)) for t, ra, u, i in got))
    if len(got) > 1:
        mon.trivial = False


def compare(got, want, what, case, k, j, ras):
    def name(x):
        ts = case['spec']['ch']
        return [(ts[t]['id'], ra, ts[u]['id'], [ts[u]['ch'][i]['id'] for i in it])
                for t, ra, u, it in x]
    if got != want:
        ts = case['spec']['ch']
        require(False, '{} of {} by {} are {}, not {}', what,
                ts[k]['id'] if j is None else ts[k]['ch'][j]['id'], ras, name(got), name(want))
