"""IGTs as reference graphs."""
from . import gen
from .gen import REFATTRS


def gen_graph(rng, n, cyclic=.3, dangling=0, noid=0, multi=.1, items=(0, 4), extra=(),
              tnoid=None, bad=.05, line=.06):
    """n tiers that refer to each other by any reference attributes"""
    ids = gen.Ids(rng)
    tiers = []
    for k in range(n):
        tiers.append({'k': 'tier', 'id': None if rng.random() < (noid if tnoid is None else tnoid)
            else ids.new(rng.choice('wmgpabtx')), 'type': rng.choice([None, 'words', 'x', 'glosses']),
            'attrs': {}, 'ch': []})
    for t in tiers:
        for _ in range(rng.randint(*items)):
            t['ch'].append({'k': 'item', 'id': None if rng.random() < noid else ids.new('ijk'[
                rng.randint(0, 2)]), 'type': None, 'attrs': {}, 'text': rng.choice([None, 'abc'])})
    named = [t for t in tiers if t['id']]
    shape = rng.choice(['random', 'random', 'chain', 'star', 'tree', 'diamond'])
    for k, t in enumerate(tiers):
        ras = [ra for ra in REFATTRS + tuple(extra) if rng.random() < rng.choice([.2, .5, .8])]
        if rng.random() < .15:
            ras = []
        rng.shuffle(ras)
        for ra in ras:
            if rng.random() < dangling or not named:
                t['attrs'][ra] = rng.choice(['nope', 'zz', 'w999'])
                continue
            pool = named if rng.random() < cyclic else [u for u in named if u in tiers[:k]
                                                        and u is not t]
            pool = [u for u in pool if u is not t or rng.random() < .3]
            if not pool:
                continue
            u = {'chain': pool[-1], 'star': pool[0]}.get(shape) or rng.choice(pool)
            us = [u]
            if rng.random() < multi:
                us.append(rng.choice(pool))
            t['attrs'][ra] = rng.choice([' ', '  ', ','] if len(us) > 1 else ['']).join(
                x['id'] for x in us)
            targets = [x['id'] for u in us for x in u['ch'] if x['id']]
            for x in t['ch']:
                if targets and rng.random() < .75:
                    if rng.random() < .2:
                        x['attrs'][ra] = ' '.join(rng.choice(targets)
                                                  for _ in range(rng.randint(1, 3) if rng.random() < .98
                                                                 else rng.choice([10, 12, 40])))
                    else:
                        x['attrs'][ra] = gen.gen_expr(rng, targets)
                elif rng.random() < bad:
                    x['attrs'][ra] = rng.choice(['nope', 'i999', ''])
    if len(named) > 3 and rng.random() < line:
        string(rng, named, cyclic and rng.random() < .6)
    if rng.random() < .5:
        rng.shuffle(tiers)
    return {'k': 'igt', 'id': 'i1', 'attrs': {}, 'ch': tiers}


def string(rng, tiers, closed):
    """Let many tiers refer to one another in one long chain or cycle."""
    some = rng.sample(tiers, rng.randint(3, len(tiers)) if rng.random() < .5 else len(tiers))
    ras = REFATTRS if rng.random() < .3 else [rng.choice(REFATTRS)]
    if not closed:      # to earlier ones only
        some = [t for t in reversed(tiers) if any(t is u for u in some)]
    for k, t in enumerate(some):
        last = k == len(some) - 1
        if last and not closed:
            return
        u = some[0 if last else k + 1]
        ra = rng.choice(ras)
        t['attrs'] = {ra: u['id']}
        targets = [x['id'] for x in u['ch'] if x['id']]
        for x in t['ch']:
            x['attrs'] = {ra: gen.gen_expr(rng, targets)} if targets and rng.random() < .9 else {}
