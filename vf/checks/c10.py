"""C10: items resolve to the text their alignment expressions denote."""
import random
import warnings

from .. import edits, gen, model, refmodels
from ..engine import Violation, require, short

ID = 'C10'
RULE = ('a case is an IGT whose items refer to earlier tiers over several levels, with or without '
        'own text, valid or with something missing; every item is resolved and compared with an '
        'independent evaluation; non-trivial: at least one item resolves through a reference')
CASES = {'quick': 7000, 'thorough': 200000}
MIN_EVENTS = {'resolved': 40000, 'over several levels': 5000, 'missing': 800, 'no value': 4000,
              'explicit attribute': 20000, 'detached': 2000, 'expression': 20000,
              'observed again': 5000}


def generate(rng, i, tier):
    if rng.random() < .15:
        return {'spec': gen.natural_igt(rng, 'i1', rng.randint(1, 6)), 'broken': None,
                'seed': rng.randint(0, 10 ** 9)}
    levels = rng.choice([1, 2, 2, 3, 3, 4, 5, 8]) if rng.random() < .98 else rng.randint(20, 60)
    shared = rng.random() < .3      # different tiers use the same item ids
    ids = gen.Ids(rng)
    tiers = []
    for k in range(levels):
        t = {'k': 'tier', 'id': ids.new('abcdefg'[k % 7]), 'type': rng.choice(gen.TYPES['tier']),
             'attrs': {}, 'ch': []}
        pool = gen.Ids(rng) if shared else ids
        ras = []
        target = {}
        if tiers and rng.random() < .95:
            ras = rng.choice([['segmentation'], ['content'], ['alignment'],
                              ['content', 'alignment'], ['alignment'], ['segmentation']])
            if rng.random() < .1:
                ras = ['content', 'segmentation']
            for ra in ras:
                u = tiers[-1] if rng.random() < .6 else rng.choice(tiers)
                t['attrs'][ra] = u['id']
                target[ra] = [x['id'] for x in u['ch'] if x['id']]
        for _ in range(rng.randint(1, 5)):
            x = {'k': 'item', 'id': pool.new('x') if rng.random() < .95 else None, 'attrs': {},
                 'type': None, 'text': None}
            for ra in ras:
                if target[ra] and rng.random() < .85:
                    x['attrs'][ra] = gen_expr(rng, target[ra])
            if not x['attrs'] or rng.random() < .25:
                x['text'] = rng.choice([None, '', gen.text(rng, False, maxlen=30),
                                        gen.text(rng, False, maxlen=30), 'abcdefgh'])
            t['ch'].append(x)
        tiers.append(t)
    g = {'k': 'igt', 'id': 'i1', 'attrs': {}, 'ch': tiers}
    broken = None
    if rng.random() < .35:
        broken = rng.choice(['item', 'tier', 'attr'])
        t = rng.choice(tiers)
        if broken == 'item':
            refs = [(x, ra) for t in tiers for x in t['ch'] for ra in x['attrs']]
            if refs:
                x, ra = rng.choice(refs)
                s = rng.choice(['nope', 'x', tiers[0]['id'] if not shared else 'nope9', 'zz.1'])
                x['attrs'][ra] = rng.choice([s, x['attrs'][ra] + '+' + s, s + ',' +
                                             x['attrs'][ra], s + '[0:1]'])
        elif broken == 'tier':
            ts = [t for t in tiers if t['attrs']]
            if ts:
                t = rng.choice(ts)
                t['attrs'][rng.choice(sorted(t['attrs']))] = rng.choice(['nope', 'Zz', 'x0.y'])
        else:
            ts = [t for t in tiers if t['attrs']]
            if ts:
                t = rng.choice(ts)
                del t['attrs'][rng.choice(sorted(t['attrs']))]
    return {'spec': g, 'broken': broken, 'seed': rng.randint(0, 10 ** 9)}


def gen_expr(rng, targets):
    if rng.random() < .8:
        return gen.gen_expr(rng, targets)
    # odd spans
    spans = ['%d:%d' % rng.choice([(0, 0), (0, 1), (2, 1), (0, 99), (5, 50), (-3, -1), (-2, 99),
                                   (0, -1), (10, 12)]) for _ in range(rng.randint(1, 3) if rng.random() < .98 else rng.choice([12, 45]))]
    s = spans[0]
    for x in spans[1:]:
        s += rng.choice('+,') + x
    return '%s[%s]' % (rng.choice(targets), s)


def outcome(fn, model_fn, what):
    """Both give the same text, or both fail because something is missing."""
    from xigt.errors import XigtStructureError
    try:
        want = model_fn()
    except refmodels.Missing as e:
        want = e
    try:
        got = fn()
    except XigtStructureError as e:
        got = e
    except KeyError as e:
        # the tier does not have the reference attribute at all
        got = e
        require(isinstance(want, refmodels.Missing) and want.args == ('container',),
                '{}: KeyError {}', what, e)
    if isinstance(want, Exception):
        require(isinstance(got, Exception), '{} is {}, although {} is missing', what, short(got),
                want)
    elif isinstance(got, Exception):
        raise Violation('%s: %r, instead of %s' % (what, got, short(want)))
    else:
        require(got == want and type(got) is type(want), '{} is {}, not {}', what, short(got),
                short(want))
    return want


def depth(g, tier, x, n=0):
    if x['text'] is not None:
        return n
    for ra in ('content', 'segmentation'):
        if ra in x['attrs']:
            u = next((t for t in g['ch'] if t['id'] == tier['attrs'].get(ra)), None)
            if u is None:
                return n
            return max([depth(g, u, y, n + 1) for y in u['ch']
                        if y['id'] in refmodels.ids(x['attrs'][ra])], default=n)
    return n


def run(case, mon):
    g = case['spec']
    rng = random.Random(case['seed'])
    igt = model.build(g, rng)
    mon.trivial = True
    observe(case, g, igt, rng, mon)
    if len(g['ch']) < 20 and rng.random() < .5:
        ops = edits.change(g, igt, rng)
        mon.hit('observed again', len(ops))
        observe(case, g, igt, rng, mon)
    detached(g, igt, mon, rng)


def observe(case, g, igt, rng, mon):
    from xigt import ref
    deep = len(g['ch']) > 10
    for t, tier in zip(g['ch'], igt):
        for x, item in zip(t['ch'], tier):
            what = 'the value of %s' % x['id']
            want = outcome(lambda: item.value(), lambda: refmodels.value(g, t, x), what)
            if not x.get('text') and x['attrs'] and want is not None:
                mon.trivial = False
            mon.hit('missing' if isinstance(want, Exception) else 'no value' if want is None
                    else 'resolved')
            if deep and rng.random() < .8:
                continue
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                outcome(item.get_content, lambda: refmodels.value(g, t, x), what + ' (deprecated)')
            if isinstance(want, str):
                if depth(g, t, x) > 1:
                    mon.hit('over several levels')
                for a, b in ((0, 1), (1, 3), (0, 99), (2, 2), (len(want), 99)):
                    require(item.span(a, b) == want[a:b], 'span {}:{} of {} is {}', a, b,
                            short(want), short(item.span(a, b)))
            elif want is None:
                require(item.span(0, 1) is None, 'the span of an item without value is not none')
            ras = rng.choice([('segmentation', 'content'), ('alignment',), ('segmentation',), (),
                              ('alignment', 'content'), ('content', 'alignment', 'segmentation')])
            outcome(lambda: item.value(refattrs=ras), lambda: refmodels.value(g, t, x, ras),
                    what + ' by ' + str(ras))
            mon.hit('explicit attribute')
            for ra in x['attrs']:
                if ra in gen.REFATTRS:
                    outcome(lambda: item.resolve_ref(ra),
                            lambda: refmodels.resolve_attr(g, t, x, ra), '%s of %s' % (ra, x['id']))
            expressions(case, g, t, x, igt, mon, ref, rng)
            if want is not None:
                mon.state(len(g['ch']), depth(g, t, x), bool(want), isinstance(want, Exception))


def expressions(case, g, t, x, igt, mon, ref, rng):
    """Resolving an expression against a tier, or against the whole IGT."""
    for ra in sorted(x['attrs']):
        e = x['attrs'][ra]
        u = next((k for k, y in enumerate(g['ch']) if y['id'] == t['attrs'].get(ra)), None)
        if u is None:
            continue
        def lookup(i):
            y = next((y for y in g['ch'][u]['ch'] if y['id'] == i), None)
            if y is None:
                raise refmodels.Missing(i)
            return refmodels.value(g, g['ch'][u], y)
        want = outcome(lambda: ref.resolve(igt[u], e), lambda: refmodels.resolve(e, lookup),
                       'the expression %s' % e)
        mon.hit('expression')
        outcome(lambda: ref.resolve(igt[u], ' ' + e + '\n'), lambda: refmodels.resolve(e, lookup),
                'the expression %s' % e)
        owners = [(v, y) for v in g['ch'] for y in v['ch']]
        if all(sum(1 for _, y in owners if y['id'] == i) <= 1 for i in refmodels.ids(e)):
            def lookup2(i):
                for v, y in owners:
                    if y['id'] == i:
                        return refmodels.value(g, v, y)
                raise refmodels.Missing(i)
            outcome(lambda: ref.resolve(igt, e), lambda: refmodels.resolve(e, lookup2),
                    'the expression %s in the igt' % e)
        if isinstance(want, str):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = ref.resolve_alignment_expression(e, igt[u])
            require(got == want, 'resolve_alignment_expression({}) is {}, not {}', e, short(got),
                    short(want))
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            got = ref.resolve_alignment(igt[u], 'nope.such', rng.choice(['', '[0:1]']))
        require(got == '' and ws, 'a missing item is resolved to {} without warning', short(got))


def detached(g, igt, mon, rng):
    """Without a tier, or without an IGT, references cannot be resolved."""
    from xigt import Item, Tier
    from xigt.errors import XigtStructureError
    t = rng.choice(g['ch'])
    for x in t['ch']:
        ra = next((r for r in ('content', 'segmentation') if r in x['attrs']), None)
        if ra is None:
            continue
        alone = Item(attributes=x['attrs'])
        tier = Tier(attributes=t['attrs'], items=[Item(attributes=x['attrs'])])
        for it in (alone, tier[0]):
            if it is tier[0] and ra not in t['attrs']:
                continue
            try:
                r = it.value()
            except XigtStructureError:
                mon.hit('detached')
            else:
                raise Violation('an item without a container has the value ' + short(r))
            it.text = 'own'
            require(it.value() == 'own', 'an item without a container loses its own text')
