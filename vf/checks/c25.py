"""C25: Toolbox import keeps every record, token and alignment."""
import json
import os
import random
import re
import sys

from .. import cli, gen, model, xmloracle
from ..engine import VERIF, Violation, require, short

ID = 'C25'
RULE = ('a case is a list of records whose tokens and alignments are known, written as a Toolbox '
        'file in some encoding, and a configuration; the written XML is read independently and '
        'compared; non-trivial: there is a record with tokens')
CASES = {'quick': 6000, 'thorough': 200000}
MIN_EVENTS = {'records': 4500, 'words': 9500, 'morphemes': 19000, 'under': 24000, 'spans': 27000,
              'exact pieces': 20000, 'headers': 1900, 'rejected': 110, 'warnings': 800,
              'wrapped': 500, 'phrases': 3500, 'other encodings': 650, 'command': 250,
              'custom': 1000, 'unaligned tiers': 300}
ASSUMPTIONS = ['The Toolbox reader is not installed: a stand-in splits the records and aligns the '
               'tokens by their columns.',
               'Records have distinct names; tiers that others refer to stand above them; lower case '
               'does not change the length of words.',
               'A segmentation matches if the word, in lower case, is the concatenation of its '
               'morphemes without the boundary marks -=~. around them.']
W = ('inu', 'ga', 'ipe', 'walk', 'dogs', 'a', 'i', 'hunde', 'größe', 'gül', 'ağaç', 'кошка', '학교',
     'ʃaɪ', 'x𐍈y', 'ba', 'ab', 'aba', 'n̪a', '42', 'é')
LATIN = ('inu', 'ga', 'ipe', 'walk', 'dogs', 'größe', 'é', 'ñandú', 'a', 'ß')
BOUND = ('', '', '', '-', '=', '~', '.')


def setup():
    sys.path.insert(0, os.path.join(VERIF, 'stubs'))


def gen_record(rng, pool, glosses=('g', 'pos')):
    words = []
    for _ in range(120 if rng.random() < .0015 else rng.choice([0, 1, 1, 2, 3, 4, 6])):
        parts = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5]))]
        r = rng.random()
        if r < .6:
            word = ''.join(parts)
        elif r < .7:
            word = '-'.join(parts)
        elif r < .8:
            word = rng.choice(pool)
        elif r < .9:
            word = ''.join(parts[:-1]) + rng.choice(pool)
        else:
            word = rng.choice(['Dog', 'A-B-', '-a', '--', '...', 'I-a', '-a-b', "don't", '(a', 'xx-'])
        ms = []
        for k, p in enumerate(parts):
            if k and rng.random() < .8:
                p = rng.choice(BOUND) + p
            elif k + 1 < len(parts) and rng.random() < .2:
                p = p + rng.choice(BOUND)
            gs = {}
            for g in glosses:
                n = rng.choice([1, 1, 1, 1, 1, 0, 2])
                gs[g] = [rng.choice(['dog', '-PST', '3SG.PST', 'NOM', 'n', 'v', 'e.g.', '&', '<x>',
                                     rng.choice(pool)]) for _ in range(n)]
            ms.append((p, gs))
        if rng.random() < .05:
            ms = []
        words.append((word, ms))
    return words


def generate(rng, i, tier):
    enc = rng.choice(['utf-8'] * 5 + ['latin-1', 'cp1252'])
    pool = W if enc == 'utf-8' else LATIN
    custom = rng.random() < .45
    recs = []
    names = set()
    many = rng.choice([60, 150, 800]) if rng.random() < .002 else 0
    for _ in range(many or rng.choice([0, 1, 1, 2, 3, 5])):
        name = rng.choice(['%d', 'JP.%03d', 'a b %d', 'éxodo %d', 'x%d', '%d.1', '~%d', '-%d',
                           'ä%d', 'Ref-%d', '(%d)']) % rng.randint(1, 9999 if many else 300)
        if name in names or 'igt' + name in names:
            continue
        names |= {name, 'igt' + name}
        r = {'name': name, 'words': gen_record(rng, pool), 'id': rng.choice([None, None, 'text %d' %
                                                                            rng.randint(1, 9)]),
             'head': rng.random() < .2, 'notes': rng.choice([None, None, 'a note', 'x é <']),
             'f': rng.choice(['the dog', None, "it's  a <cat> & more", 'Größe', 'a', '']),
             'f2': rng.random() < .1, 'levels': rng.choice([0, 1, 2, 3, 3, 3, 3]),
             'date': rng.choice([None, '2001', 'é']), 'bad': rng.random() < .04,
             'wrap': rng.random() < .2, 'ffirst': False, 'pos': rng.random() < .6,
             'gap': rng.choice([1, 1, 2, 3]), 'lead': rng.choice([0, 0, 0, 2])}
        recs.append(r)
    o = {}
    m = {'id': '\\id', 'ref': '\\ref', 'w': '\\t', 'm': '\\m', 'g': '\\g', 'pos': '\\p', 't': '\\f'}
    ids = {'w': 'w', 'm': 'm', 'g': 'g', 'pos': 'pos', 't': 't', 'p': 'p'}
    types = {'p': 'phrases', 'w': 'words', 'm': 'morphemes', 'g': 'glosses', 'pos': 'pos',
             't': 'translations'}
    aln = {'w': ['segmentation', 'p'], 'm': ['segmentation', 'w'], 'g': ['alignment', 'm'],
           'pos': ['alignment', 'm'], 't': ['alignment', 'p']}
    phrase = True
    if custom:
        if rng.random() < .5:
            for k, v in (('w', '\\tx'), ('m', '\\mb'), ('g', '\\ge'), ('pos', '\\ps'), ('t', '\\ft')):
                if rng.random() < .7:
                    m[k] = v
        if rng.random() < .4:
            ids.update(w='words', m='mo', g='x-g', pos='p-o', t='tr', p='phr')
        if rng.random() < .3:
            types['g'] = 'xglosses'
            types['t'] = 'notes'
        if rng.random() < .2:
            phrase = False
        if rng.random() < .2:
            aln['pos'] = ['alignment', 'w']
        if rng.random() < .2:
            aln['m'] = ['content', 'w']
        if rng.random() < .15:
            del aln['t']
        if rng.random() < .3:
            m['id'] = '\\txt'
        o['tier_map'] = {m[k]: ids[k] for k in ('w', 'm', 'g', 'pos', 't')}
        if rng.random() < .2:
            del o['tier_map'][m['t']]
            aln.pop('t', None)
        o['record_markers'] = [m['id'], m['ref']] if rng.random() < .8 else [m['ref']]
        o['igt_attribute_map'] = rng.choice([{}, {m['id']: 'corpus-id'}, {'\\dt': 'date'},
                                             {m['ref']: 'ref', '\\dt': 'date', m['id']: 'c'}])
        o['make_phrase_tier'] = [ids['w'], ids['p']] if phrase else rng.choice([None, []])
        o['tier_types'] = {ids[k]: dict({'type': types[k]}, **(
            {'interlinear': True} if k in ('w', 'm', 'g', 'pos') else {})) for k in types}
        o['alignments'] = {ids[k]: [ra, ids[t]] for k, (ra, t) in aln.items()}
        if rng.random() < .5:
            o['error_recovery_method'] = rng.choice(['strict', 'ratio'])
    return {'recs': recs, 'enc': enc, 'options': o, 'm': m, 'ids': ids, 'types': types, 'aln': aln,
            'phrase': phrase, 'nohead': rng.random() < .3, 'command': rng.random() < .15,
            'none': rng.random() < .5, 'seed': rng.randint(0, 10 ** 9)}


def interlinear(words, r, m, enc, pos_to_word):
    """The lines of a block, aligned by the bytes before each token"""
    def blen(s):
        return len(s.encode(enc))
    rows = {k: '' for k in ('w', 'm', 'g', 'pos')}
    for word, ms in words:
        start = max(blen(rows[k]) for k in rows)

        def put(k, s, at):
            rows[k] += ' ' * (at - blen(rows[k])) + s + ' ' * r['gap']
        put('w', word, start)
        at = start
        for mo, gs in ms:
            put('m', mo, at)
            for g in ('g', 'pos'):
                x = at
                for tok in gs[g]:
                    put(g, tok, max(x, blen(rows[g])))
            at = max(blen(rows[k]) for k in ('m', 'g', 'pos'))
    return rows


def run(case, mon):
    from xigt.codecs import xigtxml
    rng = random.Random(case['seed'])
    from xigt.importers import toolbox as importer
    tmp = mon.scratch()
    enc, m, ids, types, aln = (case[k] for k in ('enc', 'm', 'ids', 'types', 'aln'))
    opts = case['options']
    tmap = opts.get('tier_map', {m[k]: ids[k] for k in ('w', 'm', 'g', 'pos', 't')})
    rmarks = opts.get('record_markers', [m['id'], m['ref']])
    amap = opts.get('igt_attribute_map', {m['id']: 'corpus-id'})
    used = set()
    lines = []
    want = []
    if not case['nohead']:
        lines += ['\\_sh v3.0  400  Text', '\\_DateStampHasFourDigitYear', '']
        mon.hit('headers')
    if opts:
        mon.hit('custom')
    ctx = None     # the value of \id
    mon.trivial = True
    for r in case['recs']:
        data = []    # markers other than the record's
        if r['id'] is not None and m['id'] in rmarks:
            lines.append(m['id'] + ' ' + r['id'])
            ctx = r['id']
            if r['head']:
                lines.append('\\dt never')
                lines.append('%s not a record' % m['w'])
                mon.hit('headers')
        lines.append(m['ref'] + ' ' + r['name'])
        attrs = {}
        if r['id'] is not None and m['id'] not in rmarks:
            lines.append(m['id'] + ' ' + r['id'])
            if m['id'] in amap:
                attrs[amap[m['id']]] = r['id']
        if r['notes']:
            lines.append('\\nt ' + r['notes'])
        words = r['words']
        level = r['levels']
        shown = ['w', 'm', 'g'][:level] + (['pos'] if r['pos'] and level == 3 else [])
        blocks = [words]
        if r['wrap'] and len(words) > 1:
            k = rng.randint(1, len(words) - 1)
            blocks = [words[:k], words[k:]]
            mon.hit('wrapped')
        bad = False
        for b in blocks:
            rows = interlinear(b, r, m, enc, False)
            if r['bad'] and level > 1 and b is blocks[0] and rows['m'].strip() \
                    and rows['m'][0] != ' ':
                rows['w'] = '    ' + rows['w']
                bad = True
            for k in shown:
                s = rows[k].rstrip() if rng.random() < .5 else rows[k]
                lines.append((m[k] + ' ' * (1 + (k != 'w') * 0) + s))
                if rng.random() < .05:
                    lines.append('')
        for _ in range(2 if r['f2'] else 1):
            if r['f'] is not None:
                lines.append((m['t'] + ' ' + r['f']) if r['f'] else m['t'])
        if r['date']:
            lines.append('\\dt ' + r['date'])
            if '\\dt' in amap:
                attrs[amap['\\dt']] = r['date']
        lines.append('')
        if m['id'] in rmarks and ctx is not None and m['id'] in amap:
            attrs[amap[m['id']]] = ctx
        if m['ref'] in amap:
            attrs[amap[m['ref']]] = r['name']
        if bad:
            mon.hit('rejected')
            want.append(None)
            continue
        want.append((r, shown, attrs))
    if rng.random() < .2:
        lines.pop() if lines and not lines[-1] else None
    text = '\n'.join(lines) + ('\n' if rng.random() < .8 else '')
    src, out = os.path.join(tmp, 'in.txt'), os.path.join(tmp, 'out.xml')
    with open(src, 'wb') as f:
        f.write(text.encode(enc))
    before = cli.tree(tmp)
    opts = json.loads(json.dumps(opts))
    if enc == 'utf-8' and case['command']:
        args = ['-i', src, '-o', out] + rng.choice([[], ['-f', 'toolbox']])
        if opts:
            with open(os.path.join(tmp, 'c.json'), 'w') as f:
                json.dump(opts, f)
            args += ['-c', os.path.join(tmp, 'c.json')]
        mon.hit('command')
        x = cli.call('import', args)
        require(x.code == 0, 'the import ends with status {}: {}', x.code, short(x.err))
    else:
        kw = {} if enc == 'utf-8' else {'encoding': enc}
        if enc != 'utf-8':
            mon.hit('other encodings')
        if not opts and case['none']:
            importer.xigt_import(src, out, **kw)
        else:
            if opts and rng.random() < .2:
                # a configuration that served before, and was changed since
                mon.hit('configuration used again')
                used = {}
                importer.xigt_import(src, out, used, **kw)
                used.update(opts)
                opts = used
            importer.xigt_import(src, out, opts, **kw)
    require(all(cli.tree(tmp).get(k) == v for k, v in before.items()), 'the input changes')
    with open(out, 'rb') as f:
        data = f.read()
    try:
        seen = xmloracle.read(data)
    except xmloracle.Malformed as e:
        raise Violation('the output cannot be read: %s: %s' % (e, short(data, 1500)))
    d = model.diff(seen, model.snapshot(xigtxml.loads(data)), nsmap='ignore')
    require(d is None, 'the output is not read back as it is: {}', d)
    want = [x for x in want if x]
    require([g['id'] for g in seen['ch']] == [name(r['name']) for r, _, _ in want],
            'the igts are {}, not {}', [g['id'] for g in seen['ch']],
            [name(r['name']) for r, _, _ in want])
    for g, (r, shown, attrs) in zip(seen['ch'], want):
        mon.hit('records')
        if 'm' in shown and any(len(ms) > 3 for _, ms in r['words']):
            mon.hit('warnings')    # which the reader gives, and the importer passes on
        require(g['attrs'] == attrs, 'the attributes of {} are {}, not {}', g['id'], g['attrs'], attrs)
        compare(g, r, shown, case, tmap, mon)


def name(s):
    return s if re.match('[a-zA-Z]', s) else 'igt' + s


def compare(g, r, shown, case, tmap, mon):
    m, ids, types, aln = (case[k] for k in ('m', 'ids', 'types', 'aln'))
    words = r['words']
    levels = {'w': [], 'm': [], 'g': [], 'pos': []}
    for wi, (w, ms) in enumerate(words):
        levels['w'].append((w, None))
        for mo, gs in ms:
            levels['m'].append((mo, wi))
            for x in ('g', 'pos'):
                if x == 'pos' and aln.get('pos', [0, 0])[1] == 'w':
                    levels[x] += [(t, wi) for t in gs[x]]
                else:
                    levels[x] += [(t, len(levels['m']) - 1) for t in gs[x]]
    tiers = []
    order = [k for k in shown if m[k] in tmap]
    for k in order:
        if k == 'w' and case['phrase']:
            tiers.append('p')
        tiers.append(k)
    if r['f'] is not None and m['t'] in tmap:
        tiers.append('t')
    got = [t['id'] for t in g['ch']]
    require(got == [ids[k] for k in tiers], 'the tiers of {} are {}, not {}', g['id'], got,
            [ids[k] for k in tiers])
    by = {k: t for k, t in zip(tiers, g['ch'])}
    mon.state(tiers, [len(t['ch']) for t in g['ch']])
    for k, t in by.items():
        require(t['type'] == types[k], 'the type of {} is {}', t['id'], t['type'])
        require([i['id'] for i in t['ch']] == ['%s%d' % (ids[k], n + 1) for n in range(len(t['ch']))],
                'the ids of {} are {}', t['id'], [i['id'] for i in t['ch']])
        texts = [i['text'] or '' for i in t['ch']]
        if k == 'p':
            mon.hit('phrases')
            require(texts == [' '.join(w for w, _ in words)], 'the phrase is {}', short(texts))
            require(not t['attrs'] and not t['ch'][0]['attrs'], 'the phrase has attributes {}',
                    t['ch'][0]['attrs'])
            continue
        if k == 't':
            tr = re.sub(r'\n', ' ', r['f'])
            if r['f2'] and tr:
                tr = tr + ' ' + tr
            require(texts == ([tr] if tr else []), 'the translation is {}, not {}', short(texts), short(tr))
            target = aln.get('t') and 'p' in by and aln['t'][1] == 'p'
            if tr and target:
                ra = aln['t'][0]
                require(t['attrs'] == {ra: ids['p']} and t['ch'][0]['attrs'] == {ra: ids['p'] + '1'},
                        'the translation refers to {} {}', t['attrs'], t['ch'][0]['attrs'])
            elif tr:
                require(not t['attrs'] and not t['ch'][0]['attrs'], 'the translation refers to {} {}',
                        t['attrs'], t['ch'][0]['attrs'])
            continue
        toks = levels[k]
        mon.hit({'w': 'words', 'm': 'morphemes'}.get(k, 'under'), len(toks))
        if toks:
            mon.trivial = False
        require(texts == [x for x, _ in toks], 'the tokens of {} in {} are {}, not {}', t['id'], g['id'],
                short(texts, 800), short([x for x, _ in toks], 800))
        if not toks:
            continue
        ra, target = aln.get(k, (None, None))
        if target not in by:
            mon.hit('unaligned tiers')
            require(not t['attrs'] and not any(i['attrs'] for i in t['ch']),
                    '{} refers to something: {}', t['id'], short([i['attrs'] for i in t['ch']]))
            continue
        require(t['attrs'] == {ra: ids[target]}, 'the attributes of {} are {}', t['id'], t['attrs'])
        if target == 'p':
            pos = 0
            for i, (x, _) in zip(t['ch'], toks):
                e = '%s1[%d:%d]' % (ids['p'], pos, pos + len(x))
                require(i['attrs'] == {ra: e}, '{} has {}, not {}', i['id'], i['attrs'], e)
                pos += len(x) + 1
                mon.hit('spans')
                mon.hit('exact pieces')
            continue
        for n, (i, (x, at)) in enumerate(zip(t['ch'], toks)):
            tid = by[target]['ch'][at]['id']
            require(list(i['attrs']) == [ra], '{} has {}', i['id'], i['attrs'])
            e = i['attrs'][ra]
            mt = re.fullmatch(r'(.*?)(?:\[(-?\d+):(-?\d+)\])?', e, re.S)
            require(mt[1] == tid, '{} ({}) refers to {} instead of {}', i['id'], x, e, tid)
            if mt[2] is None:
                continue
            require(k == 'm', '{} has a span: {}', i['id'], e)
            mon.hit('spans')
            a, b = int(mt[2]), int(mt[3])
            word = words[at][0]
            require(0 <= a <= b <= len(word), '{} refers to {}, but the word is {}', i['id'], e, word)
            ms = [mo for mo, _ in words[at][1]]
            j = n - [q for q, (_, z) in enumerate(toks) if z == at][0]
            parts = [mo.strip('-=~.') for mo in ms]
            if ''.join(parts) == word.lower() == word:
                s = len(''.join(parts[:j]))
                require((a, b) == (s, s + len(parts[j])), '{} ({}) is {} of {} = {}, not [{}:{}]',
                        i['id'], x, e, word, ms, s, s + len(parts[j]))
                mon.hit('exact pieces')
            elif len(ms) == 1:
                require((a, b) == (0, len(word)), '{} is {} of {}', i['id'], e, word)
        # a word whose morphemes match has a span for each of them
        for wi, (w, ms) in enumerate(words):
            parts = [mo.strip('-=~.') for mo, _ in ms]
            if k == 'm' and ''.join(parts) == w.lower() == w:
                for i, (x, at) in zip(t['ch'], toks):
                    require(at != wi or '[' in i['attrs'][ra], '{} has no span: {}', i['id'],
                            i['attrs'])
