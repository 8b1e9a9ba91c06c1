"""C21: sorting a corpus file is a stable, content-preserving reordering."""
import os
import random

from .. import cli, gen, graphs, keys, model, paths, refmodels, xmlgen, xmloracle
from ..engine import Inconclusive, Violation, require, short

ID = 'C21'
RULE = ('a case is a corpus file and the arguments of the sort command; the output (or the file) is '
        'read by an independent parser and compared, at all levels, with a stable reference sort of '
        'the input; non-trivial: the order changes')
CASES = {'quick': 3500, 'thorough': 100000}
MIN_EVENTS = {'sorted': 1200, 'moved igts': 300, 'moved tiers': 300, 'moved items': 300,
              'by dependency': 150, 'ties': 300, 'missing keys': 300, 'in place': 300,
              'several keys': 250, 'processes': 8}
ASSUMPTIONS = ['Keys look into children only if these are not sorted in the same run; keys whose '
               'first match has no text, and cyclic references, are left open (see C14).']

IGT = [['@id'], ['@doc-id'], ['@n'], ['@type'], ['@dc:n'], ['metadata', 'meta', '@name'],
       ['metadata', '//x', '@n'], ['..', '@n'], ['.', '@n'], ['metadata', 'meta', 'text()']]
IGT_DEEP = [['tier', '@type'], ['tier', '@n'], ['.', '//item', '@id'], ['tier', 'item', '@n'],
            ['tier', 'item', 'text()'], [('tier', 'words'), '@id']]
TIER = [['@id'], ['@type'], ['@n'], ['@dc:n'], ['metadata', 'meta', '@name'], ['@segmentation']]
TIER_DEEP = [['item', '@n'], ['item', '@id'], ['item', 'text()'], ['.', '//item', 'value()']]
ITEM = [['@id'], ['@n'], ['text()'], ['value()'], ['@type'], ['@dc:n'], ['@alignment'],
        ['..', '@type']]


def make(steps):
    return keys.P(*[(s[0], keys.eq('@type', s[1])) if isinstance(s, tuple) else s for s in steps])


def generate(rng, i, tier):
    o = gen.Opts(ns=False, nsmaps=False, igts=(0, 0), maxlen=25, texts='xml')
    c = gen.gen_corpus(rng, gen.Opts(ns='declared', igts=(0, 0), nsmaps=False, maxlen=25,
                                     texts='xml'))
    c['nsmap'] = {'dc': gen.DC, 'x': 'urn:x'} if rng.random() < .8 else None
    noid = rng.choice([0, 0, .3])
    ids = gen.Ids(rng)
    pool = [keys.value(rng) for _ in range(4)]
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9, 14])):
        g = graphs.gen_graph(rng, rng.choice([0, 1, 2, 3, 5, 8]), cyclic=0, multi=0, bad=0,
                             dangling=rng.choice([0, 0, .1]), noid=noid, tnoid=noid,
                             items=rng.choice([(0, 2), (0, 5), (3, 9)]))
        if rng.random() < .15:
            g['ch'] = gen.natural_igt(rng, 'x')['ch']
        g['id'] = ids.new('i') if rng.random() >= noid else None
        g['type'] = rng.choice([None, 'x', 'a2', 'a10'])
        g['md'] = gen.gen_mds(rng, o, {}, .4)
        c['ch'].append(g)
    for n, _ in gen.walk(c):
        if n['k'] in ('igt', 'tier', 'item', 'meta', 'mc') and rng.random() < .8:
            n['attrs'][rng.choice(['n', 'n', 'doc-id', 'name'])] = keys.value(rng, pool)
        if c['nsmap'] and rng.random() < .2:
            n['attrs']['{%s}n' % gen.DC] = keys.value(rng, pool)
        if n['k'] == 'item' and n.get('text') is not None and rng.random() < .8:
            n['text'] = keys.value(rng, pool)
        if n['k'] in ('tier', 'igt') and rng.random() < .3:
            n['type'] = keys.value(rng, pool)
    if rng.random() < .006:
        gen.swell(rng, c, lambda: keys.value(rng, pool))
    levels = rng.choice([('igt',), ('igt',), ('tier',), ('item',), ('igt', 'tier'),
                         ('igt', 'item'), ('tier', 'item'), ('igt', 'tier', 'item'), ('deps',),
                         ('deps',), ('deps', 'igt'), ('deps', 'item'), ()])
    ks = {}
    for lv in levels:
        if lv == 'deps':
            continue
        pool2 = {'igt': IGT + (IGT_DEEP if len(levels) == 1 else []),
                 'tier': TIER + (TIER_DEEP if 'item' not in levels else []), 'item': ITEM}[lv]
        ks[lv] = [rng.choice(pool2) for _ in range(rng.choice([1, 1, 1, 2, 3]) if rng.random() < .97
                                                     else rng.choice([8, 12, 40]))]
        if not c['nsmap']:
            ks[lv] = [k for k in ks[lv] if 'dc:' not in k[-1]] or [['@n']]
    deps = None
    if 'deps' in levels:
        deps = rng.choice([['segmentation', 'alignment', 'content'], ['alignment'],
                           ['content', 'segmentation'], ['alignment', 'segmentation'],
                           ['alignment', 'content', 'segmentation']])
    return {'spec': c, 'keys': ks, 'deps': deps, 'spaces': rng.random() < .3,
            'in_place': rng.random() < .4, 'process': rng.random() < .02,
            'verbose': rng.random() < .1, 'seed': rng.randint(0, 10 ** 9)}


def order(doc, kids, ks, mon, level):
    """The kids in the order of their keys; None if that is left open"""
    ks = [make(k) for k in ks]
    val = []
    for n in kids:
        try:
            vs = [keys.first(doc, n, k) for k in ks]
        except keys.Ambiguous:
            return None
        if None in vs:
            mon.hit('missing keys')
        val.append([keys.numeric(v or '') for v in vs])
    idx = sorted(range(len(kids)), key=lambda i: val[i])
    if any(val[a] == val[b] for a, b in zip(idx, idx[1:])):
        mon.hit('ties')
    if idx != list(range(len(kids))):
        mon.hit('moved %ss' % level)
        mon.trivial = False
    mon.state(level, tuple(idx), [len(k['steps']) for k in ks])
    return [kids[i] for i in idx]


def run(case, mon):
    rng = random.Random(case['seed'])
    data, _ = xmlgen.document(case['spec'], rng,
                              plain=rng.random() < .3 or ':' in str(case['keys']))
    want = xmloracle.read(data)
    doc = paths.Doc(want)
    mon.trivial = True
    if any(keys.rebound(doc, make(k)) for ks in case['keys'].values() for k in ks):
        mon.hit('left open')
        return
    # levels are computed on the input
    new = {}
    args = []
    for lv in ('igt', 'tier', 'item'):
        ks = case['keys'].get(lv)
        if not ks:
            continue
        for k in ks:
            args += ['--%s-key' % lv, paths.render(make(k))]
        if len(ks) > 1:
            mon.hit('several keys')
        for n in doc.nodes:
            if n['k'] == {'igt': 'corpus', 'tier': 'igt', 'item': 'tier'}[lv]:
                o = order(doc, n['ch'], ks, mon, lv)
                if o is None:
                    mon.hit('left open')
                    return
                new[id(n)] = o
    if case['deps']:
        args += ['--tier-deps', (', ' if case['spaces'] else ',').join(case['deps'])]
        for g in want['ch']:
            o, _, cyclic = refmodels.tier_order(g['ch'], case['deps'])
            if cyclic:
                raise Inconclusive('the harness made a cyclic IGT')
            if o != sorted(o):
                mon.hit('by dependency')
                mon.trivial = False
            new[id(g)] = [g['ch'][i] for i in o]
    for n in doc.nodes:
        if id(n) in new:
            n['ch'] = new[id(n)]
    tmp = mon.scratch()
    path = os.path.join(tmp, rng.choice(['in.xml', 'in file.xml', 'ä', '{x}.xml']))
    with open(path, 'wb') as f:
        f.write(data)
    if case['in_place']:
        args.append('--in-place')
    if case['verbose']:
        args.append('-v')
    args.insert(rng.randint(0, 0), path)
    if case['process']:
        mon.hit('processes')
    r = cli.call('sort', args, process=case['process'], cwd=tmp)
    require(r.code == 0, 'sorting fails with status {}: {}', r.code, short(r.err, 1500))
    files = cli.tree(tmp)
    require(list(files) == [os.path.basename(path)], 'sorting leaves {}', sorted(files))
    after = files[os.path.basename(path)]
    if case['in_place']:
        require(not r.out.strip(), 'sorting in place prints {}', short(r.out))
        out = after
        mon.hit('in place')
    else:
        require(after == data, 'the input file is changed')
        out = r.out.encode('utf-8')
    try:
        got = xmloracle.read(out)
    except xmloracle.Malformed as e:
        raise Violation('the output is not well formed (%s):\n%s' % (e, short(out, 1500)))
    d = model.diff(want, got, nsmap='within')
    require(d is None, 'the sorted corpus differs from the expected one, {} (sort {})', d,
            short(args[1:]))
    mon.hit('sorted')
