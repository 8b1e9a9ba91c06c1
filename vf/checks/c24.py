"""C24: LaTeX export keeps every token, aligned and escaped."""
import json
import os
import random
import re

from .. import cli, gen, model, xmlgen
from ..engine import Violation, require, short

ID = 'C24'
RULE = ('a case is a corpus whose tiers are aligned monotonically, and a configuration; the exported '
        'file is read back line by line and token by token; non-trivial: an IGT is exported')
CASES = {'quick': 12000, 'thorough': 300000}
MIN_EVENTS = {'blocks': 6000, 'not exportable': 1200, 'tokens': 60000, 'columns': 24000,
              'merged columns': 9000, 'links': 30000, 'unaligned': 12000, 'translations': 2200,
              'special characters': 30000, 'item substitutions': 1600, 'tier substitutions': 1000,
              'command': 800, 'default configuration': 600, 'empty tokens': 1800,
              'items without ids': 9000}
ASSUMPTIONS = ['Texts have no white space other than single spaces; '
               'alignments are monotone: the columns that the items of a tier refer to do not go back.',
               'Each substitution is applied in the given order to the escaped text.']

SPECIAL = {'\\': r'\textbackslash{}', '&': r'\&', '%': r'\%', '$': r'\$', '#': r'\#', '_': r'\_',
           '{': r'\{', '}': r'\}', '~': r'\textasciitilde{}', '^': r'\textasciicircum{}'}
TYPES = ['words', 'morphemes', 'glosses']
ITEM_SUBS = [['dog', 'cat'], [r'\bNOM\b', r'\\textsc{nom}'], ['(a)([b-z])', r'\2\1'], ['x', ''],
             ['[A-Z]+', ['m', "'\\\\textsc{' + m.group(0).lower() + '}'"]],
             ['o', ['m', 'm.group(0) * 2']], ['^', '<'], [r'\\&', 'and']]
TIER_SUBS = [[r'\\\\$', ' %'], ['l', 'L'], ['^', r'\\g '], ['dog', 'cat'], ['a', ['m', "'A'"]],
             ['[{]', '[']]
WORDS = ('a', 'dog', 'NOM', 'x', '3SG.PST', 'Größe', '학교에', 'inu=ga', '-ed', 'x𐍈y', '1')
HOSTILE = ('\\', '&', '%', '$', '#', '_', '{', '}', '~', '^', '\\\\', '{}', '\\textbackslash{}',
           '\\&', '}{', '%%', '\\end{exe}', '\\trans', '$x^2$', '_{a}', '~a', '{a} {b}', '\\{', 'a b',
           '<', '"', '[', ']', '{0}', '%s', '-', '--', "'")


def txt(rng):
    r = rng.random()
    if r < .4:
        return rng.choice(WORDS)
    if r < .65:
        return ''.join(rng.choice(HOSTILE + WORDS) for _ in range(rng.randint(1, 4)))
    if r < .75:
        return ' '.join(rng.choice(WORDS) for _ in range(rng.randint(2, 3)))
    return gen.text(rng, ws=False, empty=False, maxlen=30)


def item(rng, i, attrs=None):
    n = {'k': 'item', 'id': i, 'attrs': attrs or {}, 'text': None if rng.random() < .04 else txt(rng)}
    if n['attrs'].get('segmentation') and rng.random() < .3:
        n['text'] = None
    return n


def gen_igt(rng, iid, types):
    ids = gen.Ids(rng, rng.random() < .5)
    tiers = []
    hidden = []
    exported = []
    wide = rng.random() < .03     # items that refer to many others
    huge = wide and rng.random() < .1
    for ti in range(rng.choice([0, 1, 2, 2, 3, 3, 3, 4, 5])):
        typ = rng.choice(types)
        if rng.random() < .1:
            typ = typ.title() if rng.random() < .5 else typ.upper()
        t = {'k': 'tier', 'id': ids.new('t'), 'type': typ, 'attrs': {}, 'ch': [], 'md': []}
        pool = [x for x in exported if x['ch']]
        n = rng.choice([0, 1, 2, 3, 4, 5, 8] if not wide else [3, 12, 25] if not huge else [3, 40, 70, 120])
        if pool and rng.random() < .93:
            src = pool[-1] if rng.random() < .75 else rng.choice(pool)
            targets = [x['id'] for x in src['ch']]
            ra = rng.choice(['alignment', 'alignment', 'segmentation'])
            if ra == 'segmentation' or rng.random() < .8:
                t['attrs'][ra] = src['id']
            # columns are only merged when an item refers to several: the start
            # of each is not before the start of the last
            at = 0
            style = rng.random()
            for k in range(n):
                if rng.random() < (.15 if style < .8 else .5):
                    t['ch'].append(item(rng, ids.new('i'), {ra: rng.choice(['zzz', 'zzz[0:1]'])}
                                        if rng.random() < .1 and ra == 'alignment' else None))
                    continue
                if at >= len(targets):
                    at = len(targets) - 1
                a = at if rng.random() < .7 else rng.randint(at, len(targets) - 1)
                b = a if rng.random() < .7 else min(len(targets) - 1, a + rng.randint(1, 3 if not wide else 15 if not huge else 50))
                sel = targets[a:b + 1]
                if len(sel) > 2 and rng.random() < .4:
                    sel = [sel[0], sel[-1]]
                exp = rng.choice('+,').join(
                    s + (rng.choice(['[0:1]', '[0:2,3:4]', '[1:1]']) if rng.random() < .2 else '')
                    for s in sel)
                t['ch'].append(item(rng, ids.new('i'), {ra: exp}))
                at = b + 1 if rng.random() < .6 else a if rng.random() < .5 else b
        else:
            t['ch'] = [item(rng, ids.new('i')) for _ in range(n)]
        exported.append(t)
        tiers.append(t)
    for _ in range(rng.choice([0, 0, 1, 2])):
        t = {'k': 'tier', 'id': ids.new('x'), 'md': [], 'attrs': {},
             'type': rng.choice(['translations', 'translations', 'pos', 'phrases', None, 'words2',
                                 'xwords']),
             'ch': [item(rng, ids.new('i')) for _ in range(rng.choice([0, 1, 1, 2]))]}
        tiers.insert(rng.randint(0, len(tiers)) if rng.random() < .4 else len(tiers), t)
    return {'k': 'igt', 'id': iid, 'attrs': {}, 'md': [], 'ch': tiers}


def nameless(rng, g):
    """Let what nothing refers to be without an id."""
    objs = g['ch'] + [i for t in g['ch'] for i in t['ch']]
    used = ' '.join(v for x in objs for v in x['attrs'].values())
    for x in objs:
        if x['id'] not in used and rng.random() < .7:
            x['id'] = None


def generate(rng, i, tier):
    ids = gen.Ids(rng)
    types = rng.choice([TYPES, TYPES, ['words', 'glosses'], ['pos', 'words', 'glosses', 'x-y']])
    c = {'k': 'corpus', 'id': None, 'attrs': {}, 'md': [], 'ch': []}
    many = rng.choice([105, 260, 1030]) if rng.random() < .002 else 0
    for _ in range(many or rng.choice([0, 1, 2, 2, 3])):
        iid = ids.new('i')
        g = gen.natural_igt(rng, iid) if rng.random() < .2 else gen_igt(rng, iid, types)
        if rng.random() < .2:
            nameless(rng, g)
        c['ch'].append(g)
    cfg = {}
    if types is not TYPES or rng.random() < .3:
        cfg['tier_types'] = types
    for key, pool in (('item_substitutions', ITEM_SUBS), ('tier_substitutions', TIER_SUBS)):
        if rng.random() < .25:
            cfg[key] = [[rng.choice(types + ['.*', 'w', 'g.*s', 'translations']),
                         [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]) if rng.random() < .98 else rng.choice([12, 40]))]]
                        for _ in range(rng.choice([0, 1, 1, 2]) if rng.random() < .98 else 12)]
    return {'spec': c, 'cfg': cfg or rng.choice([None, None, {}]), 'command': rng.random() < .15,
            'process': rng.random() < .01, 'seed': rng.randint(0, 10 ** 9)}


# ---------------------------------------------------------------- oracle

def escape(s):
    return re.sub(r'[\\&%$#_{}~^]', lambda m: SPECIAL[m[0]], s)


def substitute(s, typ, subs):
    for tier_regex, patterns in subs or []:
        if re.match(tier_regex, typ):
            for regex, repl in patterns:
                if not isinstance(repl, str):
                    var, expr = repl
                    repl = eval('lambda %s: %s' % (var, expr))
                s = re.sub(regex, repl, s)
    return s


def columns(line):
    """The contents of the groups of a line of an interlinear example"""
    require(line.endswith('\\\\'), 'a line does not end with \\\\: {}', short(line, 500))
    s = line[:-2]
    cols, depth, cur = [], 0, ''
    k = 0
    while k < len(s):
        c = s[k]
        if c == '\\':
            m = re.match(r'\\([a-zA-Z]+|.)', s[k:])
            require(m is not None, 'a lone backslash in {}', short(line, 500))
            require(depth, 'a command outside of any group in {}', short(line, 500))
            cur += m[0]
            k += len(m[0])
            continue
        if c == '{':
            depth += 1
            if depth > 1:
                cur += c
        elif c == '}':
            depth -= 1
            require(depth >= 0, 'unbalanced braces in {}', short(line, 500))
            if depth == 0:
                cols.append(cur)
                cur = ''
            else:
                cur += c
        elif depth:
            require(c not in '%&$#_^~' or SUBST[0], 'an unescaped {} in {}', c, short(line, 500))
            cur += c
        else:
            require(c == ' ', '{} outside of any group in {}', repr(c), short(line, 500))
        k += 1
    require(depth == 0, 'unbalanced braces in {}', short(line, 500))
    return cols


SUBST = [False]


def place(cols, texts, allowed, k=0, at=0):
    """All ways to read the columns as consecutive items"""
    if k == len(cols):
        if at == len(texts):
            yield []
        return
    if cols[k] == '':
        for rest in place(cols, texts, allowed, k + 1, at):
            yield rest
        # items with empty texts after substitutions
    for n in range(1, len(texts) - at + 1):
        if not all(allowed(j, k) for j in range(at, at + n)):
            break
        s = ' '.join(texts[at:at + n])
        if s == cols[k]:
            for rest in place(cols, texts, allowed, k + 1, at + n):
                yield [k] * n + rest
        if len(s) > len(cols[k]):
            break


def links(tiers):
    """[(tier index, item index) -> its targets (tier index, item index)]"""
    where = {}
    out = {}
    for ti, t in enumerate(tiers):
        for k, i in enumerate(t['ch']):
            e = i['attrs'].get('alignment') or i['attrs'].get('segmentation') or ''
            ids = re.findall(r'[a-zA-Z][^\[\]+,:\s]*', re.sub(r'\[[^\]]*\]', '', e))
            out[ti, k] = [where[x] for x in ids if x in where]
        for k, i in enumerate(t['ch']):
            if i['id'] is not None:
                where[i['id']] = (ti, k)
    return out


def solve(rows, texts, link, depth, pos):
    if depth == len(rows):
        yield dict(pos)
        return

    def allowed(j, col):
        return all(pos[t] == col for t in link[depth, j])
    for n, p in enumerate(place(rows[depth], texts[depth], allowed)):
        if n > 200:
            return
        for k, col in enumerate(p):
            pos[depth, k] = col
        yield from solve(rows, texts, link, depth + 1, pos)
    for k in range(len(texts[depth])):
        pos.pop((depth, k), None)


def minimal(pos, link, tiers):
    """None, or a column whose items nothing joins"""
    groups = {}
    for x, col in pos.items():
        groups.setdefault(col, set()).add(x)
    for col, xs in groups.items():
        if len(xs) == 1:
            continue
        if any(len(link[x]) > 1 for x in xs) and any(x[0] and not link[x] for x in xs):
            continue    # it depends on where unaligned items are put
        edges = []
        for x in xs:
            for t in link[x]:
                edges.append((x, t))
            if x[0] and not link[x]:
                y = (x[0], x[1] + 1)
                if y in xs and not link[y]:
                    edges.append((x, y))
            if len(link[x]) > 1:
                # what lies between the first and the last target is covered
                a, b = link[x][0], link[x][-1]
                for z in xs:
                    if z[0] == a[0] and a[1] <= z[1] <= b[1]:
                        edges.append((x, z))
        comp = {x: x for x in xs}

        def find(x):
            while comp[x] != x:
                x = comp[x]
            return x
        while True:
            for a, b in edges:
                comp[find(a)] = find(b)
            # items between others of one component belong to it
            edges = []
            for x in xs:
                for y in xs:
                    if x[0] == y[0] and x[1] < y[1] and find(x) == find(y):
                        edges += [(x, (x[0], k)) for k in range(x[1] + 1, y[1])
                                  if find((x[0], k)) != find(x)]
            if not edges:
                break
        if len(set(find(x) for x in xs)) > 1:
            return col, sorted(xs)
    return None


def run(case, mon):
    from xigt.codecs import xigtxml
    from xigt.exporters import latex
    rng = random.Random(case['seed'])
    spec, cfg = case['spec'], case['cfg']
    tmp = mon.scratch()
    out = os.path.join(tmp, 'out.tex')
    mon.trivial = True
    xc = model.build(spec, rng)
    values = {}
    for g, gs in zip(xc, spec['ch']):
        for t, ts in zip(g, gs['ch']):
            for i, x in zip(t, ts['ch']):
                values[id(x)] = i.get_content() or ''
                if x['id'] is None:
                    mon.hit('items without ids')

    def export(cfg, name):
        cfg = json.loads(json.dumps(cfg))
        if case['command'] or case['process']:
            mon.hit('command')
            data, _ = xmlgen.document(spec, rng, plain=True)
            src = os.path.join(tmp, name + '.xml')
            with open(src, 'wb') as f:
                f.write(data)
            args = ['-i', src, '-o', out]
            if rng.random() < .5:
                args += ['-f', 'latex']
            if cfg is not None:
                with open(os.path.join(tmp, name + '.json'), 'w') as f:
                    json.dump(cfg, f)
                args += ['-c', os.path.join(tmp, name + '.json')]
            r = cli.call('export', args, process=case['process'])
            require(r.code == 0, 'the export ends with status {}: {}', r.code, short(r.err, 1500))
        elif cfg is None and rng.random() < .5:
            latex.xigt_export(xc, out)
        else:
            latex.xigt_export(xc, out, cfg)
        with open(out, encoding='utf-8', newline='') as f:
            return f.read()
    if cfg is None:
        mon.hit('default configuration')
    before = model.snapshot(xc)
    data = export(cfg, 'a')
    cfg = cfg or {}
    tsubs = cfg.get('tier_substitutions')
    if tsubs:
        plain = export({k: v for k, v in cfg.items() if k != 'tier_substitutions'}, 'b')
    else:
        plain = data
    d = model.diff(before, model.snapshot(xc))
    require(d is None, 'the export changes the corpus: {}', d)
    head, begin, body = plain.partition('\\begin{document}\n')
    require(begin and head.split() == ['\\documentclass{article}', '\\usepackage{gb4e}'],
            'the header is {}', short(plain, 300))
    require(body.rstrip().endswith('\\end{document}'), 'the end is {}', short(plain[-300:]))
    lines = [x for x in body.split('\n') if x]
    require(lines.pop() == '\\end{document}', 'the end is {}', short(plain[-300:]))
    subst = []   # what lines are substituted, with the type of the tier
    k = 0

    def next_line():
        nonlocal k
        require(k < len(lines), 'the export ends early, after {}', short(lines[-3:], 600))
        k += 1
        return lines[k - 1]
    types = cfg.get('tier_types', TYPES)
    isubs = cfg.get('item_substitutions')
    for g in spec['ch']:
        tiers = [t for t in g['ch'] if (t['type'] or '').lower() in types]
        if len(tiers) < 2:
            # a comment
            text = [next_line()]
            while k < len(lines) and lines[k].startswith('%'):
                text.append(next_line())
                if re.search(r'cannot export', text[-1]) and len(text) > 1:
                    break
            require(all(x.startswith('%') for x in text)
                    and any(('cannot export IGT ' + g['id']) == x[1:].strip() for x in text),
                    'instead of a comment for {}, there is {}', g['id'], short(text, 600))
            if k < len(lines) and lines[k] == '%':
                k += 1
            mon.hit('not exportable')
            continue
        mon.hit('blocks')
        mon.trivial = False
        x = next_line()
        require(x == '\\begin{exe}\\small', 'the block of {} begins with {}', g['id'], short(x))
        x = next_line()
        require(x == '\\ex\\g' + 'l' * len(tiers), 'the second line of {} is {}', g['id'], short(x))
        rows, texts = [], []
        for t in tiers:
            x = next_line()
            subst.append((k - 1, '', x, t['type']))
            SUBST[0] = bool(isubs)
            rows.append(columns(x))
            tx = []
            for i in t['ch']:
                v = values[id(i)]
                mon.hit('tokens')
                mon.hit('special characters', sum(c in SPECIAL for c in v))
                if not v:
                    mon.hit('empty tokens')
                e = escape(v) or '{}'
                s = substitute(e, t['type'], isubs)
                if s != e:
                    mon.hit('item substitutions')
                tx.append(s)
            texts.append(tx)
        require(len(set(map(len, rows))) == 1, 'the lines of {} have {} columns', g['id'],
                [len(r) for r in rows])
        mon.hit('columns', len(rows[0]))
        link = links(tiers)
        mon.hit('links', sum(map(len, link.values())))
        mon.hit('unaligned', sum(1 for x in link if x[0] and not link[x]))
        found, bad = 0, None
        for pos in solve(rows, texts, link, 0, {}):
            found += 1
            bad = minimal(pos, link, tiers)
            if bad is None or found > 300:
                break
        if not found:
            some = next(solve(rows, texts, {x: [] for x in link}, 0, {}), None)
            raise Violation('the lines of %s do not %s: %s' % (
                g['id'], 'align items with those they refer to' if some else
                'hold the items in order', short([rows, texts, sorted(link.items())], 3000)))
        if bad is not None and found <= 300:
            raise Violation('in %s, column %s holds items that nothing joins: %s' % (
                g['id'], bad, short([rows, sorted(link.items())], 2500)))
        per = {}
        for x, col in pos.items():
            per.setdefault((x[0], col), []).append(x)
        mon.hit('merged columns', sum(len(v) > 1 for v in per.values()))
        mon.state(len(tiers), [len(t) for t in texts], len(rows[0]), sorted(link.values())[:20])
        for t in g['ch']:
            if t['type'] == 'translations' and t['ch']:
                x = next_line()
                v = values[id(t['ch'][0])]
                require(x == '\\trans ' + (escape(v) or '{}'), 'the translation {} of {} became {}',
                        short(v), g['id'], short(x))
                subst.append((k - 1, '\\trans ', x[len('\\trans '):], 'translations'))
                mon.hit('translations')
        x = next_line()
        require(x == '\\end{exe}', 'the block of {} ends with {}', g['id'], short(x))
    require(k == len(lines), 'in addition, the file has {}', short(lines[k:], 600))
    if tsubs:
        # each tier line and translation is replaced by its substitution
        out = body.split('\n')
        at = [n for n, x in enumerate(out) if x]
        for n, prefix, x, typ in subst:
            y = substitute(x, typ, tsubs)
            if x != y:
                mon.hit('tier substitutions')
            out[at[n]] = prefix + y
        want = head + begin + '\n'.join(out)
        require(want == data, 'with tier substitutions {}, {} becomes {}', tsubs, short(plain, 1500),
                short(data, 1500))
