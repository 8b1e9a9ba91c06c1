"""C09: an IGT's item and reference indices agree with its content."""
import random

from .. import gen, model, refmodels
from ..engine import require
from ..gen import REFATTRS

ID = 'C09'
RULE = ('a case is an IGT, built by a random route, and a history of edits with refreshes in '
        'between; after each refresh all lookups are compared with a fresh computation; '
        'non-trivial: at least one item')
CASES = {'quick': 5000, 'thorough': 120000}
MIN_EVENTS = {'refresh': 12000, 'item lookups': 60000, 'referrer lists': 80000, 'removed ids': 2000,
              'dangling ids': 1000, 'shared ids': 200}

EDITS = ('del-item', 'del-item', 'del-tier', 'add-item', 'add-tier', 'rename-item', 'rename-tier',
         'ref', 'ref', 'ref-tier', 'del-ref', 'clear-tier', 'swap', 'move', 'set-item', 'sort',
         'text', 'noid', 'replace-tiers')


def generate(rng, i, tier):
    r = rng.random()
    if r < .3:
        g = gen.natural_igt(rng, 'i1', rng.randint(1, 4))
    else:
        g = gen.gen_igt(rng, gen.Opts(md=False, ids='all' if r < .7 else 'some', tiers=(1, 5),
                                      items=(0, 5), maxlen=20), {}, 'i1')
    shared = rng.random() < .08
    if shared:
        # an item with the id of a tier, or of an item of another tier
        its = gen.items(g)
        pool = [x['id'] for x in g['ch'] + its if x.get('id')]
        if its and pool:
            x, new = rng.choice(its), rng.choice(pool)
            t = next(t for t in g['ch'] if any(y is x for y in t['ch']))
            if all(y.get('id') != new for y in t['ch']):
                x['id'] = new
    ops = [[rng.choice(EDITS), rng.randint(0, 999), rng.randint(0, 999), rng.randint(0, 99)]
           for _ in range(rng.randint(0, 12))]
    ops = [o if rng.random() < .75 else ['refresh'] + o[1:] for o in ops]
    return {'spec': g, 'ops': ops, 'seed': rng.randint(0, 10 ** 9), 'shared': shared}


def run(case, mon):
    import xigt
    rng = random.Random(case['seed'])
    igt = model.build(case['spec'], rng)
    if rng.random() < .5:
        xigt.XigtCorpus(igts=[igt])
    known = set()
    remember(igt, known)
    if any(len(t) for t in igt):
        pass
    else:
        mon.trivial = True
    check(igt, known, mon, case['shared'])
    n = [0]
    for op in case['ops'] + [['refresh', 0, 0, 0]]:
        name, a, b, c = op
        if name == 'refresh':
            parts = [True, True, True]
            if a % 4 == 0:
                parts = [a % 8 < 4 or a % 16 < 8, b % 2 == 0, c % 2 == 0]
            igt.refresh_indices(tiers=True, items=parts[0], referents=parts[1],
                                referrers=parts[2])
            check(igt, known, mon, case['shared'] or any_shared(igt), parts)
            mon.hit('refresh')
        else:
            edit(igt, name, a, b, c, n, known)
            remember(igt, known)
    igt.refresh_indices(tiers=True)
    check(igt, known, mon, case['shared'] or any_shared(igt))
    mon.hit('refresh')


def remember(igt, known):
    for t in igt:
        known.add(t.id)
        for i in t:
            known.add(i.id)
            for ra in REFATTRS:
                known.update(refmodels.ids(i.attributes.get(ra, '')))
    known.discard(None)


def any_shared(igt):
    ids = [t.id for t in igt] + [i.id for t in igt for i in t]
    ids = [i for i in ids if i is not None]
    return len(ids) != len(set(ids))


def new_id(n, prefix):
    n[0] += 1
    return '%s.n%d' % (prefix, n[0])


def edit(igt, name, a, b, c, n, known):
    from xigt import Item, Tier
    tiers = list(igt)
    t = tiers[a % len(tiers)] if tiers else None
    its = list(t) if t is not None else []
    it = its[b % len(its)] if its else None
    if name == 'del-item' and it is not None:
        if c % 4 == 0:
            t.remove(it)
        elif c % 4 == 1:
            t.pop(b % len(its))
        elif c % 4 == 2 and it.id is not None and t.get(it.id) is it:
            del t[it.id]
        else:
            del t[b % len(its)]
    elif name == 'del-tier' and t is not None and len(tiers) > 1:
        igt.remove(t)
    elif name == 'add-item' and t is not None:
        gone = sorted(known - {i.id for x in tiers for i in x} - {x.id for x in tiers})
        i = gone[c % len(gone)] if gone and c % 2 else new_id(n, 'x')
        if t.get(i) is None:
            t.insert(b % (len(its) + 1), Item(id=i, text='x', attributes={}))
    elif name == 'add-tier':
        u = Tier(id=new_id(n, 't'), type='words')
        for _ in range(c % 3):
            u.append(Item(id=new_id(n, 'y'), text='y'))
        if t is not None and t.id:
            u.alignment = t.id
            for x, y in zip(u, its):
                if y.id:
                    x.alignment = y.id
        igt.append(u)
    elif name == 'rename-item' and it is not None:
        it.id = new_id(n, 'r')
        t.refresh_index()
    elif name == 'rename-tier' and t is not None:
        t.id = new_id(n, 'rt')
        igt.refresh_index()
    elif name in ('ref', 'ref-tier') and t is not None:
        ra = REFATTRS[c % 3]
        x = t if name == 'ref-tier' else it
        pool = sorted(i for i in (
            [u.id for u in tiers] if name == 'ref-tier' else
            list(known - {u.id for u in tiers})) if i)
        if x is not None and pool:
            p, q = pool[a % len(pool)], pool[c % len(pool)]
            x.attributes[ra] = [p, p + '[0:1]', '%s,%s' % (p, q), '%s[1:2+0:1]+%s' % (p, q),
                                '%s %s' % (p, q)][b % 5] if name == 'ref' else p
    elif name == 'del-ref' and t is not None:
        for ra in REFATTRS:
            (t if c % 2 else it if it is not None else t).attributes.pop(ra, None)
    elif name == 'clear-tier' and t is not None and c % 3 == 0:
        t.clear()
    elif name == 'swap' and len(its) > 1:
        x, y = its[0], its[-1]
        x.id, y.id = y.id, x.id
        t.refresh_index()
    elif name == 'move' and it is not None and len(tiers) > 1:
        u = tiers[c % len(tiers)]
        if u is not t and u.get(it.id or '-') is None:
            t.remove(it)
            u.append(it)
    elif name == 'set-item' and it is not None:
        t[b % len(its)] = Item(id=new_id(n, 's'), text='s')
    elif name == 'sort':
        igt.sort_tiers()
    elif name == 'text' and it is not None:
        it.text = 'new'
    elif name == 'noid' and it is not None:
        it.id = None
        t.refresh_index()
    elif name == 'replace-tiers' and c % 3 == 0:
        igt.tiers = tiers[::-1]


def check(igt, known, mon, shared, parts=(True, True, True)):
    default = object()
    tiers = [(t.id, t) for t in igt if t.id is not None]
    items = [(i.id, i) for t in igt for i in t if i.id is not None]
    by_tier = dict(tiers)
    by_item = {}
    for i, x in items:
        by_item.setdefault(i, []).append(x)
    for i in sorted(known) + ['nope', 'n0.x']:
        if parts[0]:
            got = igt.get_item(i, default)
            mon.hit('item lookups')
            if i in by_item:
                require(any(got is x for x in by_item[i]), 'get_item({}) is not the item with '
                        'that id', i)
                require(igt.get_item(i) is got, 'get_item({}) depends on the default', i)
            else:
                mon.hit('removed ids')
                require(got is default and igt.get_item(i) is None,
                        'get_item({}) finds something, but no item has that id', i)
            got = igt.get_any(i, default)
            if i in by_tier:
                require(got is by_tier[i], 'get_any({}) is not the tier with that id', i)
            elif i in by_item:
                require(any(got is x for x in by_item[i]), 'get_any({}) is not the item', i)
            else:
                require(got is default and igt.get_any(i) is None, 'get_any({}) finds something',
                        i)
    if shared:
        mon.hit('shared ids')
        return
    objs = [(t.id, t.attributes) for t in igt] + [(i.id, i.attributes) for t in igt for i in t]
    tobjs = objs[:len(igt)]
    ids = set(by_tier) | set(by_item)
    for i, attrs in objs:
        if i is None or not parts[1]:
            continue
        got = igt.referents(i)
        for ra in REFATTRS:
            require(list(got.get(ra, [])) == refmodels.referents(attrs, ra),
                    'the remembered referents of {} ({}) are {}, not {}', i, ra, got.get(ra),
                    refmodels.referents(attrs, ra))
        require(set(k for k in got if got[k]) <= set(REFATTRS), 'unknown reference attributes')
        obj = by_tier[i] if i in by_tier else by_item[i][0]
        if len(igt):
            require(obj.referents() == got, '{}.referents() differs', i)
    if parts[2]:
        for i in sorted(ids):
            got = igt.referrers(i)
            for ra in REFATTRS:
                want = refmodels.referrers(objs, i, ra)
                require(list(got.get(ra, [])) == want, 'the remembered referrers of {} ({}) are '
                        '{}, not {}', i, ra, got.get(ra), want)
                mon.hit('referrer lists')
                if want:
                    mon.state(len(want), ra, i in by_tier)
        for i in sorted(known - ids):
            mon.hit('dangling ids')
            got = igt.referrers(i)
            for ra in REFATTRS:
                want = refmodels.referrers(objs, i, ra)
                have = list(got.get(ra, []))
                require(have == want or not have, 'the referrers of the unknown id {} ({}) are '
                        '{}, not {}', i, ra, have, want)
