"""C22: validation reports exactly the violations present."""
import os
import random
import re

from .. import cli, gen, graphs, model, refmodels, xmlgen, xmloracle
from ..engine import Inconclusive, Violation, require, short
from ..gen import REFATTRS

ID = 'C22'
RULE = ('a case is a list of files, some of them unreadable, with problems of every kind, and the '
        'options of the validate command; the report is parsed and compared, object by object, '
        'with that of an independent validator; non-trivial: there is a problem')
CASES = {'quick': 6000, 'thorough': 80000}
MIN_EVENTS = {'files': 2500, 'unreadable files': 400, 'igt id': 250, 'tier id': 200, 'item id': 150,
              'repeated': 400, 'type': 800, 'not on the tier': 400, 'tier reference': 400,
              'item reference': 500, 'outside': 800, 'overlap': 800, 'success': 150, 'corpus id': 80,
              'processes': 8, 'huge numbers': 6}
ASSUMPTIONS = ['The level of the report is that of the options (-q, none, -v, -vv); reference '
               'attributes of tiers are single ids, spans are not negative; items whose value '
               'cannot be determined have no length.']
DEFECTS = ('dup-item', 'dup-item', 'dup-igt', 'no-type', 'no-tier-attr', 'bad-tier', 'bad-item',
           'no-id', 'no-id', 'overlap', 'outside', 'edge', 'text-cut', 'extra-attr')
BROKEN = ('truncated', 'root', 'missing', 'dup-tier', 'dup-item-in-tier', 'bad-id', 'empty',
          'directory', 'bad-id-late', 'garbage')


def clean(rng):
    c = {'k': 'corpus', 'id': rng.choice([None, 'c', 'c1', 'd']), 'attrs': {}, 'ch': []}
    ids = gen.Ids(rng)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        r = rng.random()
        if r < .4:
            g = gen.natural_igt(rng, ids.new('i'), rng.randint(1, 4))
        else:
            g = graphs.gen_graph(rng, rng.choice([0, 1, 2, 3, 5]), cyclic=rng.choice([0, 0, .2]),
                                 multi=0, bad=0, items=rng.choice([(0, 2), (1, 4)]))
            g['id'] = ids.new('i')
            for t in g['ch']:
                t['type'] = rng.choice(['words', 'x', 'glosses'])
        c['ch'].append(g)
    return c


def spoil(rng, c):
    gs = [g for g in c['ch'] if g['ch']]
    if not gs:
        return
    g = rng.choice(gs)
    t = rng.choice(g['ch'])
    its = [(t, x) for t in g['ch'] for x in t['ch']]
    d = rng.choice(DEFECTS)
    refs = [(t, x, ra) for t, x in its for ra in REFATTRS if ra in x['attrs'] and ra in t['attrs']]
    if d == 'dup-item' and len(g['ch']) > 1:
        u = rng.choice(g['ch'])
        if u is not t and t['ch'] and u['ch']:
            i = rng.choice(u['ch'])['id']
            if i not in [x['id'] for x in t['ch']]:
                rng.choice(t['ch'])['id'] = i
    elif d == 'dup-igt' and len(c['ch']) > 1:
        rng.choice(c['ch'])['id'] = rng.choice(c['ch'])['id']
    elif d == 'no-type':
        t['type'] = rng.choice([None, None, ''])
    elif d == 'no-tier-attr' and t['attrs']:
        del t['attrs'][rng.choice(sorted(t['attrs']))]
    elif d == 'extra-attr' and its:
        u, x = rng.choice(its)
        x['attrs'][rng.choice(REFATTRS)] = rng.choice(['', 'w1', 'nope'])
        if 'segmentation' in x['attrs'] and len([ra for ra in REFATTRS if ra in x['attrs']]) > 1:
            x['attrs'] = {'segmentation': x['attrs']['segmentation']}
    elif d == 'bad-tier':
        ras = [ra for ra in REFATTRS if ra in t['attrs']] or ['alignment']
        t['attrs'][rng.choice(ras)] = rng.choice(['nope', 'W', 'w0', g['id'] or 'x', t['id'] or 'x',
                                                  (t['id'] or 'x') + 'x', ''])
    elif d == 'no-id':
        n = rng.choice([g, g, t, t, c, rng.choice(its)[1] if its else t])
        n['id'] = None
    elif refs:
        t, x, ra = rng.choice(refs)
        u = next((u for u in g['ch'] if u['id'] and u['id'] == t['attrs'][ra]), None)
        ids = [y['id'] for y in (u['ch'] if u else []) if y['id']] or ['w1']
        i = rng.choice(ids)
        if d == 'bad-item':
            x['attrs'][ra] = rng.choice([i + 'x', 'nope', i.upper(), i + ' nope', 'nope[0:1]+' + i,
                                         i + '[0:1],none[1:2]', x['id'] or 'y', 'nope+nope2,' + i])
        elif d == 'overlap':
            x['attrs'][ra] = rng.choice(['{0}[0:2]+{0}[1:3]', '{0}[0:2+1:3]', '{0}+{0}', '{0},{0}[0:1]',
                                         '{0}[0:1]+{0}[1:2]', '{0}[0:2,2:3+2:2]', '{0}[0:1]+{1}[0:1]',
                                         '{0}[2:3]+{1}+{0}[0:3]', '{0}[1:2]+{0}[0:2],{1},{1}',
                                         '{0} {0}', '{0}[1:1]+{0}[1:1]', '{0}[3:1]+{0}[1:3]']).format(
                                             i, rng.choice(ids))
        elif d == 'outside':
            x['attrs'][ra] = rng.choice(['{0}[0:99]', '{0}[98:99]', '{0}[0:1+1:99]', '{0}[99:0]',
                                         '{0}[0:1]+{1}[0:50,60:70]', 'nope[0:99]']).format(
                                             i, rng.choice(ids))
        elif d == 'edge':
            n = len(next((y.get('text') or '' for y in (u['ch'] if u else []) if y['id'] == i), ''))
            a = rng.choice([n, n + 1, n - 1 if n else 0, 0])
            x['attrs'][ra] = '%s[%d:%d]' % (i, min(a, rng.choice([0, n, n + 1])), a)
        elif d == 'text-cut':
            for y in u['ch'] if u else []:
                if y['id'] == i:
                    y['text'] = rng.choice([None, 'a', '\U00010348b', 'abcdefgh'])


def far(rng, c):
    """Repeat an id that came long before."""
    for kids in [c['ch']] + [t['ch'] for g in c['ch'] for t in g['ch']]:
        if len(kids) > 100:
            kids[0]['id'] = 'same'
            if kids is c['ch']:
                rng.choice(kids[-5:])['id'] = 'same'
            else:
                for g in c['ch']:
                    if any(t['ch'] is kids for t in g['ch']):
                        g['ch'].append({'k': 'tier', 'id': 'last', 'type': 'x', 'attrs': {}, 'ch': [
                            {'k': 'item', 'id': 'same', 'attrs': {}, 'text': 'a'}]})


def generate(rng, i, tier):
    files = []
    huge = rng.random() < .005
    for _ in range(rng.choice([1, 1, 1, 2, 3]) if rng.random() < .994 else rng.choice([11, 40])):
        c = clean(rng)
        if rng.random() < .005:
            gen.swell(rng, c)
            if rng.random() < .7:
                far(rng, c)
        for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
            spoil(rng, c)
        if huge:
            refs = [x for g in c['ch'] for t in g['ch'] for x in t['ch']
                    if any(ra in x['attrs'] for ra in REFATTRS)]
            for x in rng.sample(refs, min(len(refs), 3)):
                ra = rng.choice([ra for ra in REFATTRS if ra in x['attrs']])
                ids = refmodels.ids(x['attrs'][ra]) or ['w1']
                x['attrs'][ra] = rng.choice([
                    '{0}[0:{1}]', '{0}[1:{1}+{1}:{2}]', '{0}[0:{2},0:{1}]', '{0}[{1}:{2}]+{0}[{1}:{2}]',
                    '{0}[{2}:{1}]+{0}']).format(ids[0], 10 ** rng.randint(8, 9), 10 ** rng.randint(10, 18))
        files.append({'spec': c, 'broken': rng.choice(BROKEN) if rng.random() < .15 else None})
    return {'files': files, 'options': rng.choice([[], [], ['-v'], ['-v'], ['-vv'], ['-v', '-v'],
                                                   ['-vvv'], ['-q'], ['--quiet'], ['--verbose']]),
            'color': rng.random() < .1, 'process': huge or rng.random() < .015, 'huge': huge,
            'repeat': rng.random() < .1, 'seed': rng.randint(0, 10 ** 9)}


# ---------------------------------------------------------------- the oracle

ERROR, WARNING, INFO = 40, 30, 20
MODAL = {ERROR: 'MUST', WARNING: 'SHOULD', INFO: 'MAY'}


def find(kids, i):
    return next((x for x in kids if x['id'] is not None and x['id'] == i), None)


def report(c, index, known):
    """[(depth, index, id, [(level, message)])] in document order"""
    out = []

    def add(n, depth, index, ms):
        out.append((depth, index, n['id'], ms))
        return ms

    def need_id(n, level, name):
        return [] if n['id'] else [(level, 'Each %s %s specify an id.' % (name, MODAL[level]))]

    def unique(n, seen, name, scope):
        r = []
        if n['id'] and n['id'] in seen:
            r = [(ERROR, 'The given id for each %s MUST be unique within its %s.' % (name, scope))]
        seen.add(n['id'])
        return r
    ms = add(c, 0, index, need_id(c, INFO, '<xigt-corpus>'))
    if c['id'] in known:
        ms += [(ERROR, 'The given id for each <xigt-corpus> MUST be unique within its collection.')]
    igts = set()
    for gi, g in enumerate(c['ch']):
        add(g, 1, gi, need_id(g, WARNING, '<igt>') + unique(g, igts, '<igt>', '<xigt-corpus>'))
        items, lengths = set(), {}
        for ti, t in enumerate(g['ch']):
            ms = add(t, 2, ti, need_id(t, WARNING, '<tier>'))
            if not t['type']:
                ms.append((WARNING, 'Each <tier> SHOULD specify a type.'))
            miss = sorted(set(ra for x in t['ch'] for ra in REFATTRS
                              if ra in x['attrs'] and ra not in t['attrs']))
            if miss:
                ms.append((ERROR, 'Reference attributes on <item> elements MUST be specified on '
                           'their <tier> as well. The following are not: ' + ', '.join(miss)))
            for ra in REFATTRS:
                if t['attrs'].get(ra) and find(g['ch'], t['attrs'][ra]) is None:
                    ms.append((ERROR, 'The reference attribute "%s" MUST select an available '
                               '<tier> id.' % ra))
            for xi, x in enumerate(t['ch']):
                ms = add(x, 3, xi, need_id(x, WARNING, '<item>')
                         + unique(x, items, '<item>', '<igt>'))
                for ra in REFATTRS:
                    ms += expression(g, t, x, ra, lengths)
    return out


def expression(g, t, x, ra, lengths):
    e = x['attrs'].get(ra)
    u = find(g['ch'], t['attrs'].get(ra)) if t['attrs'].get(ra) else None
    if not e or u is None:
        return []
    ms = []
    missing = [i for i in refmodels.ids(e) if find(u['ch'], i) is None]
    if missing:
        ms.append((ERROR, 'The "%s" alignment expression MUST select available <item> ids from the '
                   'aligned <tier> ("%s"). The following are unavailable: %s' % (
                       ra, u['id'], ', '.join(missing))))

    def length(y):
        if id(y) not in lengths:
            try:
                lengths[id(y)] = len(refmodels.value(g, u, y) or '')
            except (refmodels.Missing, RecursionError):
                lengths[id(y)] = None
        return lengths[id(y)]
    outside, chars = [], {}
    for _, i, span in refmodels.denotation(e)[0]:
        y = find(u['ch'], i)
        if span:
            a, b = int(span[0]), int(span[1])
            if y is not None and length(y) is not None and max(a, b) > length(y):
                outside.append('%s[%s:%s]' % (i, span[0], span[1]))
            chars.setdefault(i, []).append((a, b))
        elif y is not None and length(y) is not None:
            chars.setdefault(i, []).append((0, length(y)))
    if outside:
        ms.append((WARNING, 'Alignment expressions SHOULD select spans within the aligned <item> '
                   'elements. The following spans are not valid: ' + ', '.join(outside)))
    over = [i for i, cs in chars.items()
            if any(max(p[0], q[0]) < min(p[1], q[1]) for n, p in enumerate(cs) for q in cs[:n])]
    if over:
        ms.append((WARNING, 'Alignment expression spans SHOULD NOT overlap. Spans for the following '
                   '<item> elements overlap: ' + ', '.join(over)))
    return ms


def norm(m):
    """Lists are in no particular order."""
    head, sep, tail = m.rpartition(': ')
    return (head, tuple(sorted(set(tail.split(', '))))) if sep else (m, ())


KINDS = ('corpus', 'igt', 'tier', 'item')


def visible(rep, level):
    """The objects with visible messages, and those around them: [(depth, index,
    id, [messages])]"""
    r = []
    for k, (depth, index, i, ms) in enumerate(rep):
        shown = [m for lv, m in ms if lv >= level]
        below = False
        for d, _, _, m2 in rep[k + 1:]:
            if d <= depth:
                break
            below = below or any(lv >= level for lv, _ in m2)
        if shown or below:
            r.append((depth, index, i, sorted(norm(m) for m in shown)))
    return r


# ---------------------------------------------------------------- the run

def broken(spec, kind, rng):
    """The bytes of a file that cannot be loaded, or None"""
    import copy
    spec = copy.deepcopy(spec)
    if kind == 'garbage':
        return rng.choice([b'\x00\x01', b'<a', b'not xml', b'\xff\xfe\x00', b'<xigt-corpus></igt>'])
    if kind == 'empty':
        return b''
    if kind == 'root':
        return rng.choice([b'<igt/>', b'<xigt/>', b'<corpus><igt/></corpus>'])
    if kind == 'truncated':
        data, _ = xmlgen.document(spec, rng, plain=True)
        return data[:rng.randrange(len(data.rstrip()))]
    if kind == 'bad-id' or kind == 'bad-id-late':
        spec['ch'] += [{'k': 'igt', 'id': 'zz%d' % k, 'attrs': {}, 'ch': []} for k in range(3)]
        spec['ch'][0 if kind == 'bad-id' else -1]['id'] = rng.choice(['1', ' a', '-x', '_a', ''])
    else:
        t = {'k': 'tier', 'id': 'qq', 'attrs': {}, 'ch': [
            {'k': 'item', 'id': 'qq1', 'attrs': {}, 'text': 'a'}]}
        g = {'k': 'igt', 'id': 'zz', 'attrs': {}, 'ch': [t]}
        spec['ch'].insert(rng.randint(0, len(spec['ch'])), g)
        if kind == 'dup-tier':
            g['ch'].append(dict(t))
        elif kind == 'dup-item-in-tier':
            t['ch'].append(dict(t['ch'][0]))
    return xmlgen.document(spec, rng, plain=True)[0]


ANSI = re.compile(r'\x1b\[[0-9;]*m')


def parse(text):
    """[('failed', index, file) | (depth, index, id, [messages])]"""
    out = []
    for line in text.split('\n'):
        if not line:
            continue
        m = re.match(r'Corpus (\d+) \((.*)\) failed to load\.', line)
        if m:
            out.append(('failed', int(m[1]), m[2]))
            continue
        m = re.match(r'( *) \* (.*)$', line)
        if m:
            require(out and out[-1][0] == len(m[1]), 'a message has no heading: {}', line)
            out[-1][3].append(norm(m[2]))
            continue
        m = re.match(r'( *)(corpus|igt|tier|item) (\d+) (?:\(id: "(.*)"\))?$', line)
        require(m and KINDS[len(m[1])] == m[2], 'unexpected line in the report: {}', short(line))
        out.append((len(m[1]), int(m[3]), m[4], []))
    for x in out:
        if x[0] != 'failed':
            x[3].sort()
    return out


def run(case, mon):
    rng = random.Random(case['seed'])
    tmp = mon.scratch()
    level = {'-q': 60, '--quiet': 60, '-v': 30, '--verbose': 30, '-vv': 20, '-vvv': 10}
    lv = 40
    for o in case['options']:
        lv = 20 if o == '-v' and lv == 30 else level[o]
    names, want, known, ok = [], [], set(), True
    mon.trivial = True
    fs = list(case['files'])
    if case['repeat']:
        fs.append(fs[0])
    for k, f in enumerate(fs):
        fn = os.path.join(tmp, 'f%d' % k + rng.choice(['', '.xml', ' {x}.xml', '(a).xml']))
        names.append(fn)
        kind = f['broken']
        if kind == 'missing':
            data = None
        elif kind == 'directory':
            os.mkdir(fn)
            data = None
        elif kind:
            data = broken(f['spec'], kind, rng)
        else:
            data, _ = xmlgen.document(f['spec'], rng, plain=rng.random() < .5)
        if data is not None:
            with open(fn, 'wb') as fh:
                fh.write(data)
        if kind:
            if kind in ('truncated', 'garbage'):
                try:
                    xmloracle.read(data)
                    raise Inconclusive('the harness wrote a readable file')
                except xmloracle.Malformed:
                    pass
            want.append(('failed', k, fn))
            ok = False
            mon.hit('unreadable files')
            mon.trivial = False
            continue
        c = xmloracle.read(data)
        rep = report(c, k, known)
        if c['id'] is not None:
            known.add(c['id'])
        vis = visible(rep, lv)
        want += vis
        ok = ok and not vis
        mon.hit('files')
        for d, _, _, ms in rep:
            for _, m in ms:
                mon.trivial = False
                for key, what in (('specify an id', KINDS[d] + ' id'), ('be unique', 'repeated'),
                                  ('a type', 'type'), ('on <item> el', 'not on the tier'),
                                  ('reference attribute', 'tier reference'), ('NOT overlap', 'overlap'),
                                  ('available <item>', 'item reference'), ('spans within', 'outside')):
                    if key in m:
                        mon.hit(what)
        mon.state([(d, [norm(m)[0] for _, m in ms]) for d, _, _, ms in rep if ms])
    before = cli.tree(tmp)
    args = case['options'] + (['--color'] if case['color'] else [])
    args = args + names if rng.random() < .7 else names + args
    r = cli.call('validate', args, process=case['process'], cwd=tmp,
                 limited=case.get('huge'))
    if case.get('huge'):
        mon.hit('huge numbers')
    require(cli.tree(tmp) == before, 'validation changes files')
    if case['process']:
        mon.hit('processes')
        got = [x for x in parse(ANSI.sub('', r.out))]
        said = sorted(norm(m) for m in re.findall(r'^ * \* (.*)$', ANSI.sub('', r.err), re.M))
        wanted = sorted(m for w in want if w[0] != 'failed' for m in w[3])
        require(said == wanted, 'the messages are {}, not {}', short(said, 1200), short(wanted, 1200))
        want = [w if w[0] == 'failed' else w[:3] + ([],) for w in want]
    else:
        got = parse(ANSI.sub('', r.both))
        if case['color'] and not ok and any(w[0] != 'failed' for w in want):
            require('\x1b[' in r.both, '--color gives no color')
    want = [(w[0], w[1], w[2] or None) + w[3:] for w in want]
    for a, b in zip(want, got):
        if a != b:
            raise Violation('level %d: the report says %s, instead of %s' % (
                lv, short(show(b), 900), short(show(a), 900)))
    require(len(got) == len(want), 'level {}: the report {} {}', lv,
            'lacks' if len(want) > len(got) else 'says in addition',
            short([show(x) for x in (want[len(got):] or got[len(want):])], 1200))
    require((r.code == 0) == ok, 'the exit status is {} for {}', r.code,
            'a report without problems' if ok else 'a report with problems')
    if ok:
        mon.hit('success')


def show(x):
    if x[0] == 'failed':
        return x
    return (KINDS[x[0]], x[1], x[2], [m[0] + (': ' + ', '.join(m[1]) if m[1] else '')
                                      for m in x[3]])
