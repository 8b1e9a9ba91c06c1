"""C20: partitioning a corpus loses and duplicates nothing."""
import copy
import os
import random
import re

from .. import cli, gen, keys, model, paths, xmlgen, xmloracle
from ..engine import Violation, require, short

ID = 'C20'
RULE = ('a case is a set of corpus files and a key path; the files written are read by an '
        'independent parser and compared with a reference partition, and everything in and around '
        'the output directory is observed; non-trivial: there are several groups')
CASES = {'quick': 5000, 'thorough': 80000}
MIN_EVENTS = {'partitions': 800, 'igts': 4000, 'groups': 2500, 'shared groups': 250,
              'default key': 250, 'name clashes': 50, 'hostile keys': 200,
              'existing directories': 80, 'processes': 8}
ASSUMPTIONS = ['IGTs with the same key have distinct ids; the key path gives a text; keys whose '
               'first match has no text are left open.']
PATHS = [['@id'], ['@doc-id'], ['@doc-id'], ['@doc-id'], ['@doc-id'], ['@type'], ['@dc:n'], ['tier', '@type'],
         ['metadata', 'meta', '@name'], ['metadata', '//dc:subject', '@olac:code'],
         ['tier', 'item', 'text()'], ['.', '//item', '@id'], ['..', '@n'], ['tier', 'item', 'value()'],
         ['metadata', 'meta', 'text()'], ['nothing', '@x']]
# nothing that leaves the scratch directory, even if it were used as it is
HOSTILE = ('a/b', 'a:b', 'a-b', 'a_b', 'a-b_', 'a-b__', 'a:b_', '../up', '../../up', '..', '.', '',
           '@@/abs', '@@/d1/abs', 'A-B', 'x.xml', 'x', '---', '--', 'a b', 'a\tb', 'a\nb', 'ä', 'ä:',
           '-rf', '~', '$HOME', '*', '?', 'CON', 'a//b', 'a/', ':', '-', '_', 'None', 'x_', 'x__',
           '../d2/out/in', 'é', 'e\u0301', '0', '00', 'key%s', '{}', '{0}', '%', '\\', 'a\\b', 'k' * 70, 'k' * 130, 'lä' * 60)

CLASH = ('a/b', 'a:b', 'a-b', 'a-b_', 'a:b_', 'a/b_', 'a-b__', 'A-b', 'x', 'x_')


def inert(s):
    """Without anything that could be a path"""
    s = s.replace('/', '|')
    return 'dots' if s in ('.', '..') else s


def generate(rng, i, tier):
    specs = []
    ids = gen.Ids(rng)
    pool = [rng.choice(HOSTILE) for _ in range(rng.choice([1, 2, 4, 6]))]
    if rng.random() < .5:
        pool = rng.sample(CLASH, rng.choice([2, 3, 4]))
    clash = rng.random() < .15
    many = rng.choice([12, 40]) if rng.random() < .006 else 0
    for fi in range(many or rng.choice([0, 1, 1, 2, 3, 4])):
        o = gen.Opts(ns='declared', nsmaps=rng.random() < .3,
                     igts=(0, rng.choice([2, 4, 8] if not many else [1, 2])),
                     tiers=(0, 3), items=(0, 3), maxlen=30, texts='xml',
                     ids=rng.choice(['all', 'all', 'some']))
        c = gen.gen_corpus(rng, o)
        for n, _ in gen.walk(c):
            n['attrs'] = {k: inert(v) for k, v in n['attrs'].items()}
            for k in ('text', 'type'):
                if n.get(k) is not None:
                    n[k] = inert(n[k])
        m = {'dc': gen.DC, 'olac': gen.OLAC}
        for n, _ in gen.walk(c):
            if n.get('nsmap') is not None or n['k'] == 'corpus':
                n['nsmap'] = dict(n.get('nsmap') or {}, **m)
        if rng.random() < .3:
            c['attrs']['n'] = rng.choice(pool)
        for g in c['ch']:
            if g['id'] and not clash:
                g['id'] = ids.new('i')
            if rng.random() < .8:
                g['attrs']['doc-id'] = rng.choice(pool)
            if rng.random() < .4:
                g['type'] = rng.choice(pool)
            if rng.random() < .3:
                g['attrs']['{%s}n' % gen.DC] = rng.choice(pool)
            if rng.random() < .3:
                g['md'] = g['md'] + [{'k': 'metadata', 'attrs': {}, 'ns': None, 'ch': [
                    {'k': 'meta', 'attrs': {'name': rng.choice(pool)}, 'ns': None, 'type': None,
                     'id': None, 'ch': [{'k': 'mc', 'name': 'subject', 'ns': gen.DC, 'ch': [],
                                         'text': None, 'attrs': {
                                             '{%s}code' % gen.OLAC: rng.choice(pool)}}]}]}]
            if g['ch'] and rng.random() < .3:
                g['ch'][0]['type'] = rng.choice(pool)
                for x in g['ch'][0]['ch'][:1]:
                    x['text'] = rng.choice(pool) or 'k'
        if rng.random() < .003:
            gen.swell(rng, c, lambda: rng.choice(pool))
            for g in c['ch']:
                if (g['id'] or '').startswith('zz'):
                    g['id'] = ids.new('i')
        if c['ch'] and rng.random() < .25:    # equal ones are still several
            g = copy.deepcopy(rng.choice(c['ch']))
            g['id'] = None
            for _ in range(rng.choice([2, 2, 3])):
                c['ch'].insert(rng.randint(0, len(c['ch'])), copy.deepcopy(g))
        specs.append(c)
    path = rng.choice(PATHS)
    if path[-1] == '@id':      # the files are read again for each key
        for c in specs:
            del c['ch'][130:]
    return {'specs': specs, 'path': path,
            'default': rng.choice([None, None, 'none', 'a-b', 'x:y', 'a/b', '']),
            'out': rng.choice(['new'] * 9 + ['dir', 'full', 'file', 'no parent']),
            'twice': rng.random() < .1, 'process': rng.random() < .02,
            'seed': rng.randint(0, 10 ** 9)}


def fill(spec, tmp):
    """@@ in a value stands for the scratch directory"""
    for n, _ in gen.walk(spec):
        n['attrs'] = {k: v.replace('@@', tmp) if v.startswith('@@/') else v
                      for k, v in n['attrs'].items()}
        for k in ('text', 'type'):
            if (n.get(k) or '').startswith('@@/'):
                n[k] = n[k].replace('@@', tmp)


def run(case, mon):
    rng = random.Random(case['seed'])
    tmp = mon.scratch()
    work = os.path.join(tmp, 'd1', 'd2')
    os.makedirs(work)
    path = keys.P(*case['path'])
    default = '---' if case['default'] is None else case['default']
    infiles, groups, order = [], {}, []
    mon.trivial = True
    for k, spec in enumerate(case['specs']):
        spec = copy.deepcopy(spec)
        fill(spec, tmp)
        fn = os.path.join(work, '%s%d%s' % (rng.choice(['in', 'a', 'Z', 'é', '1']), k, rng.choice(['', '.xml', ' a.xml'])))
        data, _ = xmlgen.document(spec, rng, plain=rng.random() < .3 or ':' in str(case['path']))
        with open(fn, 'wb') as f:
            f.write(data)
        infiles.append(fn)
        seen = xmloracle.read(data)
        doc = paths.Doc(seen)
        if keys.rebound(doc, path):
            mon.hit('left open')
            return
        for g in seen['ch']:
            try:
                v = keys.first(doc, g, path)
            except keys.Ambiguous:
                mon.hit('left open')
                return
            if v is None:
                v = default
                mon.hit('default key')
            groups.setdefault(v, []).append((k, g))
    for v, gs in groups.items():
        known = [g['id'] for _, g in gs if g['id'] is not None]
        if len(set(known)) < len(known):
            mon.hit('left open')
            return
    out = os.path.join(work, rng.choice(['out', 'o u t', 'out.xml']))
    if case['out'] in ('dir', 'full'):
        os.mkdir(out)
    if case['out'] == 'full':
        for n in ['keep'] + [re.sub('[:/]', '-', v) + '.xml' for v in list(groups)[:3]]:
            with open(os.path.join(out, n), 'w') as f:
                f.write('keep ' + n)
    if case['out'] == 'file':
        with open(out, 'w') as f:
            f.write('a file')
    if case['out'] == 'no parent':
        out = os.path.join(work, 'no', 'such')
    before = cli.tree(tmp)
    args = [out] + infiles + (infiles[:1] if case['twice'] else [])
    args = ['--key-path=' + paths.render(path)] + args
    if case['default'] is not None:
        args.insert(rng.randint(0, 1), '--default-key=' + default)
    if case['process']:
        mon.hit('processes')
    r = cli.call('partition', args, process=case['process'], cwd=work)
    after = cli.tree(tmp)
    if case['out'] != 'new':
        require(r.code != 0, 'an existing or impossible output directory ({}) is accepted',
                case['out'])
        require(after == before, 'a refused partition changes {}',
                sorted(set(after.items()) ^ set(before.items()))[:3])
        mon.hit('existing directories')
        return
    require(r.code == 0, 'partitioning fails with status {}: {}', r.code, short(r.err, 1500))
    rel = os.path.relpath(out, tmp)
    for p in before:
        require(p in after and after[p] == before[p], 'the input {} is changed', p)
    extra = sorted(set(after) - set(before))
    require(rel in extra, 'there is no output directory')
    names = []
    for p in extra:
        if p == rel:
            continue
        require(os.path.dirname(p) == rel and after[p] is not None,
                '{} is written, outside of the output directory', p)
        names.append(os.path.basename(p))
    require(len(names) == len(groups), 'there are {} files for {} keys: {} for {}', len(names),
            len(groups), short(names), short(list(groups)))
    left = dict(groups)
    for n in sorted(names):
        data = after[os.path.join(rel, n)]
        try:
            c = xmloracle.read(data)
        except (xmloracle.Malformed, xmloracle.WrongRoot) as e:
            raise Violation('the output %s is not a corpus (%s): %s' % (n, e, short(data, 800)))
        require(c['ch'], 'the output {} is empty', n)
        # the group with this content, among those that can have this name
        why = []
        for v, gs in left.items():
            base = re.sub('[:/]', '-', v)
            if not (n.endswith('.xml') and n[:-4].startswith(base)
                    and not n[:-4][len(base):].strip('_')):
                continue
            d = 'it has %d igts, not %d' % (len(c['ch']), len(gs)) \
                if len(gs) != len(c['ch']) else None
            for (k, a), b in zip(gs, c['ch']):
                d = d or model.diff(a, b, nsmap='within')
            if d is None:
                break
            why.append('key %s: %s' % (short(v), d))
        else:
            raise Violation('the output %s is not the group of its key (keys %s): %s' % (
                short(n), short(list(left)), '; '.join(why) or 'no such key'))
        if n[:-4] != base:
            mon.hit('name clashes')
        if v != base:
            mon.hit('hostile keys')
        gs = left.pop(v)
        mon.hit('groups')
        mon.hit('igts', len(gs))
        if len(set(k for k, _ in gs)) > 1:
            mon.hit('shared groups')
    mon.trivial = len(groups) < 2
    mon.hit('partitions')
    mon.state(len(infiles), tuple(sorted(len(g) for g in groups.values())), case['path'])
