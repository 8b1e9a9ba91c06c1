"""C14: sorting tiers by dependency is a stable, terminating permutation."""
import random

from .. import edits, gen, graphs, model, refmodels
from ..engine import require, short

ID = 'C14'
RULE = ('a case is an IGT with any reference graph (cyclic, dangling, tiers without ids); the order '
        'after sorting is compared with an independent depth-first order, or, where references are '
        'cyclic, checked for permutation, dependency order and stability; non-trivial: sorting '
        'has to move a tier, or there is a cycle')
CASES = {'quick': 25000, 'thorough': 250000}
MIN_EVENTS = {'exact order': 9000, 'cyclic': 1600, 'dangling': 1600, 'moved': 5000,
              'sorted after changes': 6000}
BUDGET = 2000000


def generate(rng, i, tier):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 25]) if rng.random() < .995 else \
        rng.choice([60, 130, 260])
    g = graphs.gen_graph(rng, n, cyclic=rng.choice([0, 0, .3, 1, 1]),
                         dangling=rng.choice([0, 0, .2]), noid=rng.choice([0, 0, .3]),
                         items=(0, 1))
    if rng.random() < .6:
        rng.shuffle(g['ch'])
    for t in g['ch']:
        for ra in sorted(t['attrs']):
            r = rng.random()
            if r < .03:               # refers to nothing, or first to something else
                t['attrs'][ra] = rng.choice(['', ' '])
            elif r < .06:
                t['attrs'][ra] = rng.choice(['nope ' + t['attrs'][ra], t['attrs'][ra] + ' nope',
                                             ' ' + t['attrs'][ra]])
    if rng.random() < .1:
        for t in g['ch']:
            t['attrs'] = {k: v for k, v in t['attrs'].items() if rng.random() < .5}
    return {'spec': g, 'seed': rng.randint(0, 10 ** 9),
            'ras': rng.choice([None, None, ['segmentation', 'alignment', 'content'],
                               ['alignment', 'segmentation'], ['content'], [],
                               ['content', 'alignment', 'segmentation']])}


def run(case, mon):
    rng = random.Random(case['seed'])
    g = case['spec']
    igt = model.build(g, rng)
    perm = observe(case, g, igt, mon)
    if len(g['ch']) < 20 and rng.random() < .4:
        # sorted, changed, and sorted by its new references
        g = dict(g, ch=[g['ch'][x] for x in perm])
        for t in g['ch']:
            t['attrs'] = dict(t['attrs'])
        edits.change(g, igt, rng)
        retarget(g, igt, rng)
        mon.hit('sorted after changes')
        observe(case, g, igt, mon)


def retarget(g, igt, rng):
    named = [t['id'] for t in g['ch'] if t['id']]
    for t, tier in zip(g['ch'], igt):
        for ra in gen.REFATTRS:
            if named and rng.random() < .15:
                t['attrs'][ra] = tier.attributes[ra] = rng.choice(named)
            elif ra in t['attrs'] and rng.random() < .15:
                del t['attrs'][ra]
                del tier.attributes[ra]
    igt.refresh_indices()


def observe(case, g, igt, mon):
    tiers = list(igt)
    ras = case['ras']
    kw = {} if ras is None else {'refattrs': ras}
    eff = ('segmentation', 'alignment', 'content') if ras is None else ras
    before = [model.snapshot(t, False) for t in tiers]
    order, parent, cyclic = refmodels.tier_order(g['ch'], eff)
    r = mon.terminates(lambda: igt.sort_tiers(**kw), BUDGET, 'sorting the tiers')
    got = list(igt)
    pos = {id(t): k for k, t in enumerate(tiers)}
    require(len(got) == len(tiers) and set(pos) == set(id(t) for t in got),
            'the sorted tiers are {}, not a permutation of {}', [t.id for t in got],
            [t.id for t in tiers])
    perm = [pos[id(t)] for t in got]
    names = [t.id for t in tiers]
    place = {x: k for k, x in enumerate(perm)}
    for x, (p, k) in parent.items():
        if x not in cyclic:
            require(place[p] < place[x], 'tier {} is before {}, to which it refers', names[x],
                    names[p])
    if not cyclic:
        require(perm == order, 'the order by {} is {}, not {}', eff, [names[x] for x in perm],
                [names[x] for x in order])
        mon.hit('exact order')
    else:
        mon.hit('cyclic')
    mon.trivial = perm == sorted(perm) and not cyclic
    if perm != sorted(perm):
        mon.hit('moved')
    if any(t['attrs'].get(ra) in ('nope', 'zz', 'w999') for t in g['ch'] for ra in eff):
        mon.hit('dangling')
    require([model.snapshot(t, False) for t in tiers] == before, 'sorting changes a tier')
    for t in tiers:
        require(t.igt is igt, 'sorting changes the igt of a tier')
        if t.id is not None:
            require(igt[t.id] is t, 'the id {} is lost', t.id)
    mon.terminates(lambda: igt.sort_tiers(**kw), BUDGET, 'sorting again')
    require([pos[id(t)] for t in igt] == perm, 'sorting again changes the order from {} to {}',
            [t.id for t in got], [t.id for t in igt])
    mon.state(tuple(perm))
    return perm
