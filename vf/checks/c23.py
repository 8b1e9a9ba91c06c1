"""C23: the query command reports the matches it claims."""
import os
import random
import re

from .. import cli, gen, graphs, keys, paths, xmlgen, xmloracle
from ..engine import Violation, require, short

ID = 'C23'
RULE = ('a case is a list of corpus files and an agenda of finds, counts, uniques and tallies with '
        'generated queries and descriptions; what is printed is compared with an independent '
        'evaluation of the queries; non-trivial: something matches')
CASES = {'quick': 3000, 'thorough': 80000}
MIN_EVENTS = {'files': 1500, 'find': 1200, 'count': 1200, 'unique': 1200, 'tally': 1200,
              'matches': 8000, 'tally rows': 2500, 'descriptions': 1500, 'braces': 500,
              'object matches': 1000, 'processes': 8, 'duplicates': 800}
ASSUMPTIONS = ['Queries that would give absent values (attributes or texts that are missing for '
               'some nodes) are left out; names in braces other than query, subquery and match are '
               'text; positional fields and lone braces are not valid descriptions.']
DESCS = ('{match}', '{match!s}', 'x', '', '{query}: {match}', '{subquery}|{query}|{match}',
         '{other} {match}', '{x.y} {z[0]}: {match}', '100% {match}', 'é{match}', '{query}{query}',
         'match', '{match} {query} {{', '\\t{match}', '{other!r:>3}', '{Match}', '{matches}',
         '{{match}}', '{query!r}', '{match:}', "it's {match}", '$match')
OBJ_DESCS = ('{match.id}', '{match.type} {query}', '{match.id!r}{other}')
SAMPLE = ('{', '}', '{match}', '{query}', '{0}', '{}', 'a{b}c', '{{', '%s', 'dog', 'a', 'ä')


def generate(rng, i, tier):
    files = []
    large = None
    pool = [rng.choice(SAMPLE) for _ in range(3)] + ['a', 'b']
    for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < .994 else rng.choice([11, 40])):
        c = gen.gen_corpus(rng, gen.Opts(ns=False, nsmaps=False, igts=(0, 0), maxlen=20,
                                         texts='xml'))
        ids = gen.Ids(rng)
        for _ in range(rng.choice([0, 1, 2, 3, 6])):
            g = gen.natural_igt(rng, 'x', rng.randint(1, 3)) if rng.random() < .5 else \
                graphs.gen_graph(rng, rng.randint(0, 4), cyclic=0, multi=0, bad=0, items=(0, 4))
            g['id'] = ids.new('i')
            g['attrs'] = {'doc-id': rng.choice(pool), 'n': rng.choice(pool)}
            c['ch'].append(g)
        if rng.random() < .006:
            large = gen.swell(rng, c, lambda: rng.choice(pool + ['%d' % rng.randint(0, 999)] * 4))
        for n, _ in gen.walk(c):
            if n['k'] in ('tier', 'item'):
                if rng.random() < .9:
                    n['attrs']['n'] = rng.choice(pool)
            if n['k'] == 'item' and rng.random() < .7:
                n['text'] = rng.choice(pool)
            n['attrs'] = {k: v.replace('\n', ' ') for k, v in n['attrs'].items()}
            for k in ('text', 'type'):
                if n.get(k):
                    n[k] = n[k].replace('\n', ' ')
        files.append(c)
    agenda = []
    docs = [paths.Doc(c) for c in files]
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        action = rng.choice(['find', 'count', 'unique', 'tally'])
        q, kinds = query(rng, rng.choice(docs), {'corpus'}, pool)
        a = {'action': action, 'query': q, 'seed': rng.randint(0, 10 ** 9)}
        if action == 'tally':
            a['subquery'] = sub(rng, kinds, rng.choice(docs), pool)
        if rng.random() < .5:
            obj = action == 'find' and kinds and not kinds & {'str', None}
            a['desc'] = rng.choice(OBJ_DESCS if obj and rng.random() < .4 and 'corpus' not in kinds
                                   else DESCS)
        agenda.append(a)
    if large:
        k = {'igts': 'igt', 'tiers': 'tier', 'items': 'item'}[large]
        for action in ('tally', rng.choice(['find', 'count', 'unique'])):
            agenda.append({'action': action, 'query': keys.P('//' + k), 'seed': 0,
                           'subquery': keys.P(rng.choice(['@id', '@n', '.']))})
            if action != 'tally':
                del agenda[-1]['subquery']
    return {'files': files, 'agenda': agenda, 'filedesc': rng.choice([None, None, None, '{filename}',
                                                                      '== {filename} ==', 'x']),
            'basename': rng.random() < .3, 'process': rng.random() < .015,
            'short': rng.random() < .5, 'first': rng.random() < .5,
            'seed': rng.randint(0, 10 ** 9)}


def query(rng, doc, kinds, pool):
    """A query, and the kinds of its matches if known"""
    if rng.random() < .35:
        p = paths.Gen(rng, doc).path(kinds, downward=rng.random() < .5)
        return p, {None}
    v = rng.choice(pool)
    q = rng.choice([
        (['igt'], 'igt'), (['igt', 'tier'], 'tier'), (['igt', 'tier', 'item'], 'item'),
        (['//item'], 'item'), (['//tier'], 'tier'), (['igt', 'tier', 'item', 'value()'], 'str'),
        (['igt', '@doc-id'], 'str'), (['igt', '@n'], 'str'), (['igt', 'tier', '@id'], 'str'),
        (['igt', ('tier', keys.has('@n')), '@n'], 'str'), (['igt', ('tier', keys.eq('@n', v))], 'tier'),
        ([('//item', keys.eq('@n', v)), '@id'], 'str'), ([('//item', keys.has('@n')), '@n'], 'str'),
        ([('//item', keys.has('text()')), 'text()'], 'str'), (['//item', '..'], 'tier'),
        ([('//item', keys.eq('text()', v))], 'item'), (['//tier', '..', '@n'], 'str'),
        (['metadata', 'meta', '@type'], 'str'), (['igt', 'tier', '@type'], 'str'),
        ([('igt', keys.eq('@doc-id', v, '!='))], 'igt'), (['//*'], None)])
    return keys.P(*q[0], abs=rng.choice(['', '/'])), {q[1]}


def sub(rng, kinds, doc, pool):
    v = rng.choice(pool)
    k = next(iter(kinds))
    qs = {'igt': [['@doc-id'], ['@n'], ['tier', '@type'], ['.', '//item', '@id'],
                  ['.', ('//item', keys.has('@n')), '@n'],
                  ['.', ('//item', keys.eq('@n', v))], ['tier', ('item', keys.eq('text()', v)), 'text()'],
                  ['..', 'igt', '@n'], ['metadata'], ['@id']],
          'tier': [['@id'], ['@type'], ['..', '@n'], [('item', keys.has('@n')), '@n'], ['..'], ['item'],
                   [('item', keys.eq('@n', v)), '@id'], ['metadata', 'meta']],
          'item': [['value()'], ['@id'], ['..', '@type'], ['..'], ['..', '..', '@n'], ['.'],
                   [('.', keys.has('@n')), '@n']]}.get(k, [['@id'], ['.'], ['@type']])
    return keys.P(*rng.choice(qs))


class Skip(Exception):
    pass


def results(doc, n, p, mon):
    """The matches; Skip if some could be absent"""
    if incomplete(doc, [n], p):
        raise Skip()
    return paths.evaluate(doc, [n], p)


def incomplete(doc, nodes, p, strict=True):
    """Could there be absent values, or functions of nodes that do not have them?"""
    if p['abs']:
        nodes = [doc.root]
    for s in p['steps']:
        bare = {'abs': '', 'steps': [dict(s, preds=[])]}
        if s['axis'] == 'func':
            kinds = {'text': ('item', 'meta', 'mc'), 'value': ('item',)}.get(
                s['test'], ('tier', 'item'))
            if any(not isinstance(n, str) and (n['k'] not in kinds or kinds == ('tier', 'item')
                                               and n['id'] is None) for n in nodes):
                return True
        if strict and s['axis'] == 'attr' and s['test'] == '*':
            return True
        if strict and (s['axis'] == 'func' and s['test'] in ('text', 'value') or s['axis'] == 'attr'
                       and s['test'] not in ('id', 'type', 'name')):
            if not all(isinstance(n, str) or paths.evaluate(doc, [n], bare) for n in nodes):
                return True
        for q in s.get('paths') or []:
            if incomplete(doc, nodes, q, strict):
                return True
        nodes = paths.evaluate(doc, nodes, bare)
        for q in s.get('preds') or []:
            if incomplete(doc, nodes, q['path'], False):
                return True
            nodes = [n for n in nodes if paths.holds(doc, n, q)]
    return False


ADDR = re.compile(r' at (0x)?[0-9a-f]+(?=>)')


def describe(desc, query, subquery, match):
    """Names in braces; other text as it is"""
    def field(m):
        name, attr, conv = m[1], m[2], m[3]
        if m[0] == '{{' or m[0] == '}}':
            return m[0][0]
        if name not in ('query', 'subquery', 'match'):
            return m[0]
        v = {'query': query, 'subquery': subquery, 'match': match}[name]
        if attr:
            v = getattr(v, attr[1:])
        return repr(v) if conv == '!r' else str(v)
    return re.sub(r'\{\{|\}\}|\{(\w+)([.\[][^}!:]*)?(![rs])?(:[^}]*)?\}', field, desc)


def run(case, mon):
    from xigt.codecs import xigtxml
    rng = random.Random(case['seed'])
    tmp = mon.scratch()
    names, want = [], []
    mon.trivial = True
    flags = {'find': ['-f', '--find'], 'count': ['-c', '--count'], 'unique': ['-u', '--unique'],
             'tally': ['-t', '--tally']}
    args = []
    for a in case['agenda']:
        args.append(flags[a['action']][0 if case['short'] else 1])
        a['text'] = paths.render(a['query'], random.Random(a['seed']), .05)
        args.append(a['text'])
        a['sub'] = ''
        if a['action'] == 'tally':
            a['sub'] = paths.render(a['subquery'])
            args.append(a['sub'])
        if 'desc' in a:
            args += ['-d' if case['short'] else '--description', a['desc']]
            mon.hit('descriptions')
        if '{' in a['text'] + a['sub'] + a.get('desc', ''):
            mon.hit('braces')
    if any(x.startswith('-') and len(x) > 2 and ' ' in x for x in args):
        return
    if case['filedesc'] is not None:
        args += ['-D' if case['short'] else '--file-description', case['filedesc']]
    if case['basename']:
        args.append('--basename')
    for k, spec in enumerate(case['files']):
        data, _ = xmlgen.document(spec, rng, plain=rng.random() < .4)
        fn = os.path.join(tmp, 'f%d' % k + rng.choice(['', '.xml', ' a.xml', '{x}.xml', '(é).xml']))
        with open(fn, 'wb') as f:
            f.write(data)
        names.append(fn)
        shown = os.path.basename(fn) if case['basename'] else fn
        want.append(('line', (case['filedesc'] or '{filename}:').replace('{filename}', shown)))
        xc = xigtxml.loads(data)
        seen = xmloracle.read(data)
        doc = paths.Doc(seen, xc)
        rows = []
        for a in case['agenda']:
            try:
                found = results(doc, seen, a['query'], mon)
                if a['action'] == 'tally':
                    if any(isinstance(x, str) for x in found):
                        raise Skip()
                    groups = {}
                    for x in found:
                        g = results(doc, x, a['subquery'], mon)
                        key = tuple(y if isinstance(y, str) else id(y) for y in g)
                        groups.setdefault(key, [0, [objof(doc, y) for y in g]])[0] += 1
            except Skip:
                mon.hit('left open')
                return
            except RecursionError:
                return
            t, s = a['text'], a['sub']
            default = '{query}\t{subquery}\t{match!s}' if a['action'] == 'tally' \
                else '{query}\t{match!s}'
            desc = a.get('desc', default)
            mon.hit(a['action'])
            mon.hit('matches', len(found))
            if found:
                mon.trivial = False
            distinct = len(set(x if isinstance(x, str) else id(x) for x in found))
            if distinct < len(found):
                mon.hit('duplicates')
            if a['action'] == 'find':
                for x in found:
                    if not isinstance(x, str):
                        mon.hit('object matches')
                    want.append(('line', '  ' + describe(desc, t, s, objof(doc, x))))
            elif a['action'] == 'count':
                rows.append((len(found), describe(desc, t, s, ''), None))
            elif a['action'] == 'unique':
                rows.append((distinct, describe(desc, t, s, ''), None))
            else:
                r = sorted(groups.values(), key=lambda x: -x[0])
                require(sum(x[0] for x in r) == len(found), 'oracle')
                for n, g in r:
                    rows.append((n, describe(desc, t, s, ', '.join(map(str, g))), (id(a), n)))
                mon.hit('tally rows', len(r))
        w = max([len(str(r[0])) for r in rows] or [0])
        last = None
        for n, d, tie in rows:
            line = ' %s\t%s' % (str(n).rjust(w), d)
            if tie is not None and tie == last:
                want[-1][1].append(line)   # in no particular order
            elif tie is not None:
                want.append(('tie', [line]))
            else:
                want.append(('line', line))
            last = tie
        want.append(('line', ''))
        mon.hit('files')
    before = cli.tree(tmp)
    args = names + args if case['first'] else args + ['--'] + names
    if case['process']:
        mon.hit('processes')
    r = cli.call('query', args, process=case['process'], cwd=tmp)
    require(r.code == 0, 'the query fails with status {}: {}', r.code, short(r.err, 1500))
    require(cli.tree(tmp) == before, 'querying changes files')
    got = r.out.split('\n')
    require(got and got[-1] == '', 'the output does not end with a newline')
    got = [ADDR.sub('', x) for x in got[:-1]]
    k = 0
    for what, w in want:
        n = 1 if what == 'line' else len(w)
        part = got[k:k + n]
        w = [w] if what == 'line' else sorted(w)
        w = [ADDR.sub('', x) for x in w]
        if what == 'tie':
            part, w = sorted(part), sorted(w)
        require(part == w, 'for {}, line {} is {}, not {}', short(args[:12]), k, short(part, 600),
                short(w, 600))
        k += n
    require(k == len(got), 'in addition, the output has {}', short(got[k:], 800))
    mon.state([(a['action'], len(a['query']['steps'])) for a in case['agenda']], len(want))


def objof(doc, x):
    return x if isinstance(x, str) else doc.obj[id(x)]
