"""C26: ODIN import keeps every line and yields readable corpora."""
import json
import os
import random
import re
import sys

from .. import cli, gen, model, xmloracle
from ..engine import VERIF, Violation, require, short

ID = 'C26'
RULE = ('a case is a file or directory of blocks as the ODIN reader delivers them, and a '
        'configuration; the written XML is read independently and compared, and loaded in every '
        'mode; non-trivial: there is a block with a line')
CASES = {'quick': 6000, 'thorough': 200000}
MIN_EVENTS = {'blocks': 5000, 'lines': 15000, 'files': 2500, 'directories': 550, 'headers': 900,
              'replaced': 10000, 'astral': 5000, 'no lines': 800, 'undetermined': 1500,
              'mismatches': 160, 'ignored files': 1200, 'loads': 7500, 'command': 250}
ASSUMPTIONS = ['The ODIN reader is not installed: a stand-in delivers the blocks.',
               'Blocks have distinct ids and text values; no carriage returns, which XML does not '
               'keep.']
TEXTS = ('', ' ', 'a', '  inu=ga   ipe ', '(1) a.', '\ta\tb', '`dog\'', '<b>', '&amp;', 'a & b', ']]>',
         'é', 'naïve', 'ʃa', '\U0001f600', 'x\U00010348y', '\U0010ffff', '\U0001d4d0\U00020000',
         '\ue000', '\uf8ff', '\ufffd', '\ud7ff', '\u00a0', '\x7f', '\x80\x9f', '\ufdd0', '\u2028',
         '\x85', '\ufffc', '\u0300', '\U0001fffe')
BAD = ('\x00', '\x01', '\x08', '\x0b', '\x0c', '\x0e', '\x1f', '\ufffe', '\uffff', '\ud800', '\udbff',
       '\udc00', '\udfff', '\x1b')
TAGS = ('L', 'G', 'T', 'M', 'L+CN', 'G-T', 'L+AC+SY', 'B', 'M+CR')


def setup():
    sys.path.insert(0, os.path.join(VERIF, 'stubs'))


def txt(rng, bad=.2, line=True):
    s = ''.join(rng.choice(TEXTS) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))) \
        if rng.random() < .6 else gen.text(rng, maxlen=60)
    if rng.random() < bad:
        for _ in range(rng.choice([1, 1, 2, 4])):
            k = rng.randint(0, len(s))
            s = s[:k] + rng.choice(BAD) + s[k:]
    # (JSON would join two surrogates)
    s = re.sub('[\ud800-\udbff](?=[\udc00-\udfff])', '\x00', s.replace('\r', ''))
    return s.replace('\n', ' ') if line else s


def gen_block(rng, n):
    start = rng.randint(1, 9999)
    b = {'igt_id': rng.choice(['igt%d-%d' % (start, n), 'i%d' % n, 'igt-%d' % n]),
         'doc_id': rng.choice(['%d' % rng.randint(1, 9999), txt(rng)]),
         'line_range': '%d %d' % (start, start + rng.randint(0, 9)),
         'line_types': ' '.join(rng.choice(TAGS) for _ in range(rng.randint(0, 4)))}
    if rng.random() < .1:
        b['line_types'] = txt(rng)
    b['language'] = rng.choice(['german (deu)', 'ABKHAZ', 'old english', ' korean\t', '', txt(rng),
                                "ju|'hoan", None])
    if rng.random() < .1:
        del b['language']
    b['iso-639-3'] = rng.choice(['deu', 'abk', 'und', '*unknown*', 'deu:gsw', ' kor ', txt(rng, .1),
                                 None, None])
    if rng.random() < .1:
        del b['iso-639-3']
    if rng.random() < .6:
        b['header_lines'] = [txt(rng) for _ in range(rng.choice([0, 1, 2, 4]))]
    b['lines'] = []
    for k in range(rng.choice([0, 1, 2, 3, 3, 3, 5, 12])):
        d = {'content': txt(rng), 'line': str(start + k), 'tag': rng.choice(TAGS)}
        if rng.random() < .1:
            d['tag'] = txt(rng)
        if rng.random() < .2:
            d[rng.choice(['judgment', 'comment', 'num', 'fonts'])] = txt(rng)
        b['lines'].append(d)
    if rng.random() < .03:
        del b['lines']
    if rng.random() < .3:
        b['extra'] = rng.choice([1, None, ['a'], 'x\x00'])
    return b


def generate(rng, i, tier):
    d = rng.random() < .25
    names = ['a', 'b.txt', 'c d', '1', 'é', 'x.y', 'atxt', '.txt'.strip('.'), 'b']
    n = 0
    files = {}
    suffix = rng.choice(['.txt', '.txt', '.txt', '.odin', '.t', '.check.txt', '(1).txt', '-x+', '[1].t'])
    more = d and rng.random() < .02
    if more:
        names = ['f%d' % j for j in range(50)]
    for _ in range(rng.choice([0, 1, 2, 3, 4]) if d and not more else 60 if more else 1):
        blocks = []
        many = rng.choice([105, 260, 1030]) if rng.random() < .002 else 0
        for _ in range(many or rng.choice([0, 1, 1, 2, 3, 5])):
            n += 1
            blocks.append(gen_block(rng, n))
        files[rng.choice(names) + suffix] = blocks
    cfg = {}
    if rng.random() < .5:
        cfg['keep_headers'] = rng.random() < .8
    if rng.random() < .4:
        cfg['replacement_char'] = rng.choice(['?', '', '\ufffd', '\\', '\\1', '<', '&', 'xx', ' ',
                                              '\U0001f600', '$0', '\\g<0>'])
    if suffix != '.txt' or rng.random() < .2:
        cfg['input_file_suffix'] = suffix
    return {'dir': d, 'files': files, 'cfg': cfg, 'suffix': suffix,
            'exists': rng.random() < .4, 'none': rng.random() < .4,
            'dirname': rng.choice(['in', 'in', 'a b', 'in[1]', 'in*', 'x.txt', '?']),
            'ignored': rng.random() < .5, 'mismatch': rng.random() < .08,
            'command': rng.random() < .12, 'process': False, 'seed': rng.randint(0, 10 ** 9)}


VALID = re.compile('[\t\n\r -\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')


def spec(blocks, cfg, mon):
    rep = cfg.get('replacement_char', '\ufffd')

    def clean(s):
        out = []
        for c in s:
            if VALID.match(c):
                out.append(c)
                if ord(c) > 0xffff:
                    mon.hit('astral')
            else:
                out.append(rep)
                mon.hit('replaced')
        return ''.join(out)
    corpus = {'k': 'corpus', 'id': None, 'type': None, 'attrs': {}, 'md': [], 'ch': []}
    for b in blocks:
        mon.hit('blocks')
        metas = []
        if cfg.get('keep_headers') and b.get('header_lines'):
            metas.append({'k': 'meta', 'id': 'meta1', 'type': 'odin-header', 'attrs': {}, 'ch': [],
                          'text': '\n'.join(map(clean, b['header_lines']))})
            mon.hit('headers')
        iso = b.get('iso-639-3')
        if iso is None:
            mon.hit('undetermined')

        def child(name, code, text):
            return {'k': 'mc', 'name': name, 'ns': gen.DC, 'text': text, 'ch': [], 'attrs': {
                '{%s}type' % gen.XSI: 'olac:language', '{%s}code' % gen.OLAC: code}}
        metas.append({'k': 'meta', 'id': 'meta%d' % (len(metas) + 1), 'type': None, 'attrs': {},
                      'text': None, 'ch': [
                          child('subject', 'und' if iso is None else clean(iso).strip(),
                                clean(b.get('language') or '').strip().title()),
                          child('language', 'en', 'English')]})
        items = []
        if not b.get('lines'):
            mon.hit('no lines')
        for n, line in enumerate(b.get('lines') or [], 1):
            mon.hit('lines')
            items.append({'k': 'item', 'id': 'r%d' % n, 'type': None, 'text': clean(line['content']),
                          'attrs': {k: clean(v) for k, v in line.items() if k != 'content'}})
        corpus['ch'].append({
            'k': 'igt', 'id': b['igt_id'], 'type': None,
            'attrs': {'doc-id': clean(b['doc_id']), 'line-range': b['line_range'].replace(' ', '-'),
                      'tag-types': clean(b['line_types'])},
            'md': [{'k': 'metadata', 'id': None, 'type': None, 'attrs': {}, 'ch': metas}],
            'ch': [{'k': 'tier', 'id': 'r', 'type': 'odin', 'attrs': {'state': 'raw'}, 'md': [],
                    'ch': items}]})
    return model.expected(corpus, xml=True)


def write(path, blocks):
    with open(path, 'w') as f:
        f.write('header\n')
        for b in blocks:
            f.write(json.dumps(b) + '\n\n')


def run(case, mon):
    from xigt.codecs import xigtxml
    from xigt.errors import XigtImportError
    from xigt.importers import odin
    rng = random.Random(case['seed'])
    tmp = mon.scratch()
    cfg = json.loads(json.dumps(case['cfg']))
    files = case['files']
    mon.trivial = not any(b.get('lines') for bs in files.values() for b in bs)
    src, out = os.path.join(tmp, 'src'), os.path.join(tmp, 'out')
    want = {}
    if case['dir']:
        mon.hit('directories')
        src = os.path.join(tmp, case['dirname'])
        os.mkdir(src)
        for name, blocks in files.items():
            write(os.path.join(src, name), blocks)
            want[name[:-len(case['suffix'])] + '.xml'] = blocks
        if case['ignored']:
            for name in ('x' + case['suffix'] + '.bak', 'readme', 'y.other', 'txt',
                         case['suffix'][:-1] + 'z'):
                with open(os.path.join(src, name), 'w') as f:
                    f.write('{not JSON')
                mon.hit('ignored files')
        if case['exists']:
            os.mkdir(out)
            with open(os.path.join(out, 'other'), 'w') as f:
                f.write('other')
            for name in want:
                if rng.random() < .5:
                    with open(os.path.join(out, name), 'w') as f:
                        f.write('<old/>' * 3000)
    else:
        for name, blocks in files.items():
            src = os.path.join(tmp, name)
            write(src, blocks)
            want[''] = blocks
        if case['exists']:
            with open(out, 'w') as f:
                f.write('<old/>' * 3000)

    def call():
        if case['command']:
            args = ['-i', src, '-o', out, '-f', 'odin']
            if cfg:
                p = os.path.join(tmp, 'cfg.json')
                with open(p, 'w') as f:
                    json.dump(cfg, f)
                args += ['-c', p]
            mon.hit('command')
            r = cli.call('import', args)
            require(r.code == 0, 'the import ends with status {}: {}', r.code, short(r.err))
        elif not cfg and case['none']:
            odin.xigt_import(src, out) if rng.random() < .5 else odin.xigt_import(src, out, None)
        else:
            odin.xigt_import(src, out, cfg)
    if case['mismatch']:
        mon.hit('mismatches')
        what = rng.choice(['out', 'missing'])
        if what == 'missing':
            src = os.path.join(tmp, 'nothing')
        elif not os.path.exists(out):
            if case['dir']:
                with open(out, 'w') as f:
                    f.write('x')
            else:
                os.mkdir(out)
        else:
            os.rename(out, out + '2')
            if case['dir']:
                with open(out, 'w') as f:
                    f.write('x')
            else:
                os.mkdir(out)
        case['command'] = False
        before = cli.tree(tmp)
        try:
            call()
        except XigtImportError:
            pass
        else:
            raise Violation('a file and a directory, or nothing, are accepted')
        require(cli.tree(tmp) == before, 'a rejected import changes files')
        return
    before = cli.tree(tmp)
    call()
    after = cli.tree(tmp)
    after.pop('cfg.json', None)
    got = {os.path.relpath(os.path.join(tmp, p), out): d for p, d in after.items()
           if before.get(p, '') != d and d is not None}
    got = {'' if p == '.' else p: d for p, d in got.items()}
    require(sorted(got) == sorted(want), 'from {}, {} are written, not {}', sorted(files),
            sorted(got), sorted(want))
    require(all(p in after for p in before), 'the import removes files')
    require(not case['dir'] or os.path.isdir(out), 'there is no output directory')
    for name, blocks in want.items():
        mon.hit('files')
        data = got[name]
        w = spec(blocks, cfg, mon)
        try:
            seen = xmloracle.read(data)
        except xmloracle.Malformed as e:
            raise Violation('the output cannot be read: %s: %s' % (e, short(data, 1500)))
        d = model.diff(w, seen, nsmap='ignore')
        require(d is None, 'with {}: {}', short(cfg), d)
        for p, u in (('olac', gen.OLAC), ('dc', gen.DC), ('xsi', gen.XSI)):
            require(seen['nsmap'].get(p) == u, 'the prefix {} is not declared', p)
        path = os.path.join(out, name) if name else out
        for mode in ('full', 'incremental', 'transient'):
            xc = xigtxml.load(path, mode=mode)
            igts = [model.snapshot(g) for g in xc]
            require(len(igts) == len(w['ch']), 'loaded in {} mode, there are {} igts', mode, len(igts))
            for a, b in zip(w['ch'], igts):
                d = model.diff(a, b, nsmap='ignore')
                require(d is None, 'loaded in {} mode: {}', mode, d)
            mon.hit('loads')
        mon.state([len(g['ch'][0]['ch']) for g in w['ch']], sorted(cfg))
