"""C27: [incr tsdb()] export writes one correct row per IGT."""
import copy
import json
import os
import random
import sys

from .. import cli, gen, model, xmlgen
from ..engine import VERIF, require, short

ID = 'C27'
RULE = ('a case is a corpus and a configuration; the rows that a stand-in of pyDelphin is given are '
        'compared with the values that independent code computes; non-trivial: there are rows')
CASES = {'quick': 6000, 'thorough': 150000}
MIN_EVENTS = {'rows': 3600, 'cells': 8000, 'default cells': 2200, 'several cells': 2200,
              'no relations': 1200, 'found relations': 200, 'phrases': 850, 'words': 1000,
              'command': 700, 'again': 450, 'transient': 700}
ASSUMPTIONS = ['pyDelphin is not installed: a stand-in with the interface of itsdb.make_skeleton '
               'records the rows.',
               'Cell expressions have the igt in scope; a phrase without text is no phrase.']


def setup():
    sys.path.insert(0, os.path.join(VERIF, 'stubs'))


# expression -> what it means, for a plain description of an igt and its values
CELLS = {
    'igt.id': lambda g, v: g['id'],
    'len(igt)': lambda g, v: len(g['ch']),
    'igt.attributes.get("judgment", "-")': lambda g, v: g['attrs'].get('judgment', '-'),
    '1 if igt.get_meta("comment") else 0': lambda g, v: int(any(
        m['type'] == 'comment' for md in g['md'] if md['type'] == 'xigt-meta' for m in md['ch'])),
    '"|".join(t.id for t in igt)': lambda g, v: '|'.join(t['id'] for t in g['ch']),
    '[t.id for t in igt if t.type == igt[0].type]': lambda g, v: [
        t['id'] for t in g['ch'] if t['type'] == g['ch'][0]['type']],
    '"x"': lambda g, v: 'x',
    'None': lambda g, v: None,
    '(lambda n: n + len(igt.tiers))(1)': lambda g, v: 1 + len(g['ch']),
    'sum(len(t) for t in igt)': lambda g, v: sum(len(t['ch']) for t in g['ch']),
    'any(t.type == igt.type for t in igt)': lambda g, v: any(
        t['type'] == g['type'] for t in g['ch']),
    'igt.type or ""': lambda g, v: g['type'] or '',
    '[i.get_content() or "" for t in igt.select(type="words") for i in t]': lambda g, v: [
        v[i['id']] or '' for t in g['ch'] if t['type'] == 'words' for i in t['ch']],
    '" ".join(i.id for t in igt.select(type="words") for i in t)': lambda g, v: ' '.join(
        i['id'] for t in g['ch'] if t['type'] == 'words' for i in t['ch']),
    '"{}:{}".format(igt.id, igt.type)': lambda g, v: '%s:%s' % (g['id'], g['type']),
}


def default(g, v):
    for t in g['ch']:
        if t['type'] == 'phrases':
            for i in t['ch']:
                if v[i['id']]:
                    return v[i['id']], 'phrases'
                break
            else:
                continue
            break
    for t in g['ch']:
        if t['type'] == 'words':
            return ' '.join(v[i['id']] or '' for i in t['ch']), 'words'
    return '', 'none'


def generate(rng, i, tier):
    c = gen.gen_corpus(rng, gen.Opts(ns=False, nsmaps=False, igts=(0, 0), maxlen=20, texts='xml'))
    c['md'] = []    # get_meta would look there, too
    ids = gen.Ids(rng)
    for _ in range(rng.choice([0, 1, 2, 3, 6])):
        iid = ids.new('i')
        if rng.random() < .4:
            g = gen.natural_igt(rng, iid)
            g.update(type=rng.choice(gen.TYPES['igt']), md=[])
            if rng.random() < .5:
                del g['ch'][0]['ch'][:]
                g['ch'] = g['ch'][1:] if rng.random() < .3 else g['ch']
                g['ch'][-1]['ch'] = []
                for t in g['ch']:
                    for it in t['ch']:
                        it['attrs'] = {}
                        it['text'] = rng.choice([None, '', 'a', 'b c', 'ä', '@', 'x'])
        else:
            g = gen.gen_igt(rng, gen.Opts(ns=False, nsmaps=False, refs='none', tiers=(0, 5),
                                          items=(0, 4), maxlen=20, texts='xml'), {}, iid)
            for t in g['ch']:
                if rng.random() < .5:
                    t['type'] = rng.choice(['phrases', 'words', 'phrases', 'words', 'morphemes'])
        g['attrs'] = {'judgment': rng.choice(['*', '?', ''])} if rng.random() < .5 else {}
        if not g['ch'] and rng.random() < .5:
            g['ch'] = [{'k': 'tier', 'id': 'w', 'type': 'words', 'attrs': {}, 'md': [], 'ch': []}]
        c['ch'].append(g)
    if rng.random() < .004:
        gen.swell(rng, c)
        for g in c['ch']:
            g['md'] = []
            for n in [g] + g['ch'] + [x for t in g['ch'] for x in t['ch']]:
                n['attrs'] = {k: v for k, v in n['attrs'].items() if k == 'judgment'}
    cfg = {}
    if rng.random() < .5:
        cfg['i-id_start'] = rng.choice([0, 1, 10, 100, -5, 1000000])
    if rng.random() < .5:
        cfg['i-id_skip'] = rng.choice([1, 2, 10, 0, 7, -1, 100])
    if rng.random() < .6:
        keys = rng.sample(['i-input', 'i-wf', 'i-length', 'i-comment', 'i-author', 'i-origin', 'é'],
                          rng.choice([0, 1, 2, 3, 4, 5]))
        if rng.random() < .03:
            keys += ['k%d' % j for j in range(rng.choice([5, 8, 30, 50]))]
        cfg['cells'] = [[k, rng.choice(sorted(CELLS))] for k in keys]
    return {'spec': c, 'cfg': cfg, 'relations': rng.choice(
                ['yes', 'yes', 'yes', 'yes', 'yes', 'no', 'missing', 'directory', 'empty', 'logon',
                 'nologon']),
            'none': rng.random() < .3, 'load': rng.choice(['build', 'full', 'transient', 'command']),
            'again': rng.random() < .2, 'seed': rng.randint(0, 10 ** 9)}


def run(case, mon):
    from delphin import itsdb as stub
    from xigt.codecs import xigtxml
    from xigt.exporters import itsdb
    rng = random.Random(case['seed'])
    spec = case['spec']
    tmp = mon.scratch()
    rel = os.path.join(tmp, 'Relations')
    with open(rel, 'w') as f:
        f.write('item:\n  i-id :integer :key\n')
    os.environ.pop('LOGONROOT', None)
    cfg = copy.deepcopy(case['cfg'])
    want_rel = rel
    how = case['relations']
    if how == 'yes':
        cfg['relations'] = rel
        if rng.random() < .3:     # the configuration goes before the environment
            os.environ['LOGONROOT'] = os.path.join(tmp, 'logon')
            d = os.path.join(tmp, 'logon', 'lingo/lkb/src/tsdb/skeletons/english')
            os.makedirs(d)
            with open(os.path.join(d, 'Relations'), 'w') as f:
                f.write('item:\n')
            mon.hit('both relations')
    elif how in ('logon', 'nologon'):
        os.environ['LOGONROOT'] = os.path.join(tmp, 'logon')
        if how == 'logon':
            d = os.path.join(tmp, 'logon', 'lingo/lkb/src/tsdb/skeletons/english')
            os.makedirs(d)
            want_rel = os.path.join(d, 'Relations')
            with open(want_rel, 'w') as f:
                f.write('item:\n')
            mon.hit('found relations')
        else:
            want_rel = None
    else:
        want_rel = None
        if how != 'no':
            cfg['relations'] = {'missing': os.path.join(tmp, 'nothing'), 'directory': tmp,
                                'empty': ''}[how]
    mon.trivial = not spec['ch'] or want_rel is None
    xc = model.build(spec, rng)
    values = [{i.id: i.get_content() for t in g for i in t} for g in xc]
    rows = []
    start, skip = cfg.get('i-id_start', 0), cfg.get('i-id_skip', 10)
    for k, g in enumerate(spec['ch']):
        row = {'i-id': start + k * skip}
        if 'cells' in cfg:
            for key, e in cfg['cells']:
                row[key] = CELLS[e](g, values[k])
                mon.hit('cells')
            if len(cfg['cells']) > 1:
                mon.hit('several cells')
        else:
            row['i-input'], src = default(g, values[k])
            mon.hit('default cells')
            mon.hit(src)
        rows.append(row)
    data, _ = xmlgen.document(spec, rng, plain=True)
    src = os.path.join(tmp, 'in.xml')
    with open(src, 'wb') as f:
        f.write(data)
    out = os.path.join(tmp, 'skel')
    before = cli.tree(tmp)
    if case['none'] and not cfg:
        cfg = None
    original = copy.deepcopy(cfg)
    for n in range(2 if case['again'] else 1):
        if n:
            mon.hit('again')
        del stub.calls[:]
        if case['load'] == 'command':
            args = ['-i', src, '-o', out, '-f', 'itsdb']
            if cfg is not None:
                with open(os.path.join(tmp, 'c.json'), 'w') as f:
                    json.dump(cfg, f)
                before['c.json'] = json.dumps(cfg).encode()
                args += ['-c', os.path.join(tmp, 'c.json')]
            mon.hit('command')
            r = cli.call('export', args)
            require(r.code == 0, 'the export ends with status {}: {}', r.code, short(r.err))
        else:
            if case['load'] == 'transient':
                mon.hit('transient')
                c = xigtxml.load(src, mode='transient')
            else:
                c = xc if case['load'] == 'build' else xigtxml.load(src)
            snap = model.snapshot(xc)
            if cfg is None and rng.random() < .5:
                itsdb.xigt_export(c, out)
            else:
                itsdb.xigt_export(c, out, cfg)
            d = model.diff(snap, model.snapshot(xc))
            require(d is None, 'the export changes the corpus: {}', d)
        if want_rel is None:
            mon.hit('no relations')
            require(not stub.calls and cli.tree(tmp) == before,
                    'without a relations file, something is written')
            continue
        require(len(stub.calls) == 1, 'make_skeleton is called {} times', len(stub.calls))
        call = stub.calls[0]
        require(call['path'] == out, 'the skeleton is written to {}', call['path'])
        require(call['relations'] == want_rel, 'the relations are {}, not {}', call['relations'],
                want_rel)
        require(len(call['rows']) == len(rows), '{} rows for {} igts', len(call['rows']), len(rows))
        for k, (a, b) in enumerate(zip(call['rows'], rows)):
            require(a == b, 'with {}, row {} is {}, not {}', short(case['cfg']), k, short(a, 800),
                    short(b, 800))
            mon.hit('rows')
        mon.state(rows and sorted(rows[0]), len(rows), start, skip)
    if want_rel is not None and rows and rng.random() < .4:
        failing(case, dict(cfg or {}), itsdb, stub, src, out, tmp, rng, mon)
    require(cfg is None or {k: v for k, v in cfg.items() if k in original} == original or
            case['load'] == 'command', 'the configuration is changed: {}', short(cfg))


def failing(case, cfg, itsdb, stub, src, out, tmp, rng, mon):
    """A cell that has no value makes the export fail, instead of leaving something else there."""
    from xigt.codecs import xigtxml
    bad = rng.choice(['igt.id +', '(', '', 'nosuchname', 'igt.nosuch', '1/0', 'igt["no-such"]', 'x = 1',
                      'next(iter(()))', '1 // (igt.id != %r)' % case['spec']['ch'][-1]['id']])
    cells = list(cfg.get('cells', [])) or [['i-input', 'igt.id']]
    cells.insert(rng.randint(0, len(cells)), ['i-bad', bad])
    cfg['cells'] = cells
    del stub.calls[:]
    if case['load'] == 'command':
        with open(os.path.join(tmp, 'c.json'), 'w') as f:
            json.dump(cfg, f)
        try:
            failed = cli.call('export', ['-i', src, '-o', out, '-f', 'itsdb',
                                         '-c', os.path.join(tmp, 'c.json')]).code != 0
        except Exception:
            failed = True
    else:
        xc = xigtxml.load(src, mode=rng.choice(['full', 'incremental']))
        try:
            itsdb.xigt_export(xc, out, cfg)
            failed = False
        except Exception:
            failed = True
    require(failed, 'the export succeeds although the cell {} has no value, with {}', bad,
            short(stub.calls, 800))
    mon.hit('failing cells')
