"""C35: what is written conforms to the published schema."""
import io
import os
import random
import re
import unicodedata
from xml.parsers import expat

from .. import cli, edits, gen, graphs, model, xmlgen
from ..engine import Violation, require, short

ID = 'C35'
RULE = ('a case is a corpus that conforms to schema/xigt-structure.rnc, and the way in which it comes '
        'to be written: built, read in some mode, converted from JSON, edited, or put through a '
        'command or an importer; each document written is validated by a validator of that schema; '
        'non-trivial: it has an igt')
CASES = {'quick': 6000, 'thorough': 150000}
MIN_EVENTS = {'documents': 5000, 'igts': 12000, 'tiers': 35000, 'items': 90000, 'metadata': 14000,
              'references': 90000, 'from json': 250, 'edited': 550, 'sorted': 250, 'parts': 650,
              'toolbox': 180, 'odin': 190, 'rewritten': 1600, 'partitioned': 200, 'appended': 240}
ASSUMPTIONS = ['The validator was written by hand from schema/xigt-structure.rnc.',
               'Additions of namespaced attributes and the attributes of a corpus itself, which that '
               'schema does not allow, are not made.',
               'Records of Toolbox files have names that can be ids.']
REFS = ('alignment', 'content', 'segmentation')


def wordchar(c):
    return c in '-_.' or unicodedata.category(c)[0] not in 'PZC'


def is_id(s):
    return bool(s) and s[0].isascii() and s[0].isalpha() and all(map(wordchar, s[1:]))


def is_expr(s):
    """ID ( [N:N (,+ N:N)*] )?  joined by , or +"""
    n = len(s)
    i = 0
    while True:
        k = i
        while k < n and s[k] not in '[,+':
            k += 1
        if not is_id(s[i:k]):
            return False
        if k < n and s[k] == '[':
            e = s.find(']', k)
            if e < 0 or not re.fullmatch(r'\d+:\d+([,+]\d+:\d+)*', s[k + 1:e]):
                return False
            k = e + 1
        if k == n:
            return True
        if s[k] not in ',+':
            return False
        i = k + 1


def parse(data):
    """The tree of elements: tag, attributes, children with the text between"""
    p = expat.ParserCreate(namespace_separator='}')
    root = {'tag': None, 'attrs': {}, 'ch': []}
    stack = [root]

    def start(name, attrs):
        e = {'tag': name, 'attrs': attrs, 'ch': []}
        stack[-1]['ch'].append(e)
        stack.append(e)

    def end(name):
        stack.pop()

    def chars(s):
        stack[-1]['ch'].append(s)
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    try:
        p.Parse(data, True)
    except expat.ExpatError as e:
        raise Violation('what is written is not well formed (%s): %s' % (e, short(data, 800)))
    return root['ch'][0]


CONTENT = {'xigt-corpus': ('metadata', 'igt'), 'igt': ('metadata', 'tier'),
           'tier': ('metadata', 'item'), 'metadata': ('meta',), 'item': ()}


def valid(e, where, mon=None):
    """Yield what is wrong with an element"""
    tag, a = e['tag'], e['attrs']
    kids = [x for x in e['ch'] if not isinstance(x, str)]
    text = ''.join(x for x in e['ch'] if isinstance(x, str))
    if 'id' in a and not is_id(a['id']):
        yield '%s has the id %r' % (where, a['id'])
    if tag in ('igt', 'tier', 'item') and 'id' not in a:
        yield '%s has no id' % where
    if tag == 'tier' and 'type' not in a:
        yield '%s has no type' % where
    if tag == 'xigt-corpus':
        for k in a:
            if k not in ('id', 'type'):
                yield '%s has the attribute %s' % (where, k)
    if tag in ('tier', 'item'):
        if 'segmentation' in a and ('alignment' in a or 'content' in a):
            yield '%s has a segmentation besides another reference' % where
        for k in REFS:
            if k in a:
                if mon:
                    mon.hit('references')
                if not is_expr(a[k]):
                    yield '%s has the %s %r' % (where, k, a[k])
    else:
        for k in REFS:
            if k in a and tag != 'xigt-corpus':
                yield '%s has a %s' % (where, k)
    if tag == 'meta':
        if kids and text.strip():
            yield '%s has text and elements' % where
        return
    if tag != 'item' and text.strip():
        yield '%s has the text %s' % (where, short(text.strip(), 60))
    allowed = CONTENT[tag]
    at = 0
    count = {}
    for x in kids:
        k = x['tag']
        count[k] = count.get(k, 0) + 1
        w = '%s/%s[%d]' % (where, k, count[k])
        if k not in allowed:
            yield '%s is not allowed there' % w
            continue
        if allowed.index(k) < at:
            yield '%s stands after %s' % (w, allowed[at])
        at = allowed.index(k)
        if mon:
            mon.hit(k + ('s' if k != 'metadata' else ''))
        yield from valid(x, w, mon)


def conforms(data, what, mon, judge=True):
    root = parse(data)
    if root['tag'] != 'xigt-corpus':
        raise Violation('%s writes a document whose root is %s' % (what, root['tag']))
    wrong = list(valid(root, '', mon if judge else None))
    if judge:
        mon.hit('documents')
        require(not wrong, '{} writes what the schema does not allow: {}', what, '; '.join(wrong[:5]))
    return not wrong


def conform(spec, rng):
    """Change a specification so that it conforms"""
    spec['attrs'] = {}
    for n, parent in gen.walk(spec):
        k = n['k']
        if k == 'tier' and n['type'] is None:
            n['type'] = rng.choice(['words', 'x', 'words'])
        if k == 'meta':
            n['attrs'] = {a: v for a, v in n['attrs'].items() if a not in REFS}
            if n['ch'] and n['text'] and n['text'].strip():
                if rng.random() < .5:
                    n['ch'] = []
                else:
                    n['text'] = None
        if k in ('tier', 'item'):
            a = n['attrs']
            if 'segmentation' in a and ('alignment' in a or 'content' in a):
                for x in rng.choice([['segmentation'], ['alignment', 'content']]):
                    a.pop(x, None)
            for x in REFS:
                if x in a:
                    v = re.sub(r'\s+', '+', a[x].strip())
                    a[x] = v
                    if not is_expr(v):
                        del a[x]
        elif k != 'mc':
            for x in REFS:
                n['attrs'].pop(x, None)


def generate(rng, i, tier):
    r = rng.random()
    if r < .1:
        from . import c25, c26
        m, name = rng.choice([(c25, 'toolbox'), (c26, 'odin')])
        case = m.generate(rng, i, tier)
        for k, rec in enumerate(case.get('recs', ())):
            if not all(map(wordchar, rec['name'])):
                rec['name'] = 'rec.%d' % k
        return {'how': name, 'case': case, 'spec': None}
    spec = gen.gen_corpus(rng, gen.Opts(ns=rng.choice([False, 'declared', 'any']), texts='xml',
                                        igts=(0, 4), tiers=(0, 5), maxlen=40))
    if rng.random() < .3:
        spec['ch'].append(gen.natural_igt(rng, 'nat', rng.randint(1, 4)))
    if rng.random() < .2:
        g = graphs.gen_graph(rng, rng.choice([1, 2, 4, 6]), cyclic=.1, multi=.2, bad=0)
        g['id'] = 'graph'
        spec['ch'].append(g)
    conform(spec, rng)
    return {'how': rng.choice(['built', 'built', 'built', 'edited', 'edited', 'read', 'read', 'json',
                               'sort', 'partition', 'parts', 'append', 'late']),
            'spec': spec, 'indent': rng.choice([2, 2, None, 0, 4]),
            'mode': rng.choice(['full', 'incremental', 'transient']),
            'seed': rng.randint(0, 10 ** 9)}


def setup():
    from . import c25, c26
    c25.setup()
    c26.setup()


class Quiet:
    """A monitor that only lends its scratch directory"""

    def __init__(self, mon):
        self.mon = mon
        self.dirs = []
        self.trivial = False

    def scratch(self):
        d = self.mon.scratch()
        self.dirs.append(d)
        return d

    def hit(self, *a, **k):
        pass

    state = hit

    def __getattr__(self, name):
        return getattr(self.mon, name)


def imported(case, mon):
    from . import c25, c26
    q = Quiet(mon)
    try:
        (c25 if case['how'] == 'toolbox' else c26).run(case['case'], q)
    except Violation:
        pass             # C25 and C26 report it
    for d in q.dirs:
        for p, data in sorted(cli.tree(d).items()):
            if data and data.lstrip()[:1] == b'<' and b'<old/>' not in data[:9]:
                mon.trivial = False
                mon.hit(case['how'])
                conforms(data, 'the %s importer' % case['how'], mon)


def run(case, mon):
    from xigt.codecs import xigtjson, xigtxml
    mon.trivial = True
    if case['how'] in ('toolbox', 'odin'):
        return imported(case, mon)
    rng = random.Random(case['seed'])
    spec, how, ind = case['spec'], case['how'], case['indent']
    mon.trivial = not spec['ch']

    def write(xc):
        if rng.random() < .3:
            enc = rng.choice(['utf-8', 'utf-16', 'utf-8'])
            p = os.path.join(mon.scratch(), 'out.xml')
            xigtxml.dump(p, xc, encoding=enc, indent=ind)
            with open(p, 'rb') as f:
                return f.read()
        if rng.random() < .3:
            f = io.BytesIO()
            xigtxml.dump(f, xc, indent=ind)
            return f.getvalue()
        return xigtxml.dumps(xc, indent=ind)

    def again(data, what):
        """Read and written once more"""
        b = data if isinstance(data, bytes) else data.encode('utf-8')
        f = io.BytesIO(b)
        xc = xigtxml.load(f, mode=case['mode']) if case['mode'] != 'full' else xigtxml.load(f)
        conforms(write(xc), what + ', read and written again,', mon)
        mon.hit('rewritten')

    if how == 'parts':
        xc = model.build(spec, rng)
        for g, igt in zip(spec['ch'], xc):
            root = parse(xigtxml.encode_igt(igt, indent=ind))
            require(root['tag'] == 'igt', 'the root is {}', root['tag'])
            wrong = list(valid(root, 'igt', mon))
            require(not wrong, 'encode_igt writes what the schema does not allow: {}',
                    '; '.join(wrong[:5]))
            mon.hit('parts')
            for tier in igt:
                root = parse(xigtxml.encode_tier(tier, indent=ind))
                require(root['tag'] == 'tier', 'the root is {}', root['tag'])
                wrong = list(valid(root, 'tier'))
                require(not wrong, 'encode_tier writes what the schema does not allow: {}',
                        '; '.join(wrong[:5]))
        return
    if how in ('built', 'edited', 'late', 'append', 'json'):
        xc = model.build(spec, rng)
        if how == 'late':      # the metadata come last
            for n, obj in pairs(spec, xc):
                if n['k'] in ('corpus', 'igt', 'tier') and rng.random() < .6:
                    n['md'] = gen.gen_mds(rng, gen.Opts(ns=False, texts='xml', maxlen=20), {}, 1)
                    conform({'k': 'corpus', 'attrs': {}, 'ch': n['md']}, rng)
                    mds = [model.build(m, rng) for m in n['md']]
                    if rng.random() < .5:
                        obj.metadata = mds
                    else:
                        obj.metadata = []
                        for m in mds:
                            obj.metadata.append(m)
        if how == 'edited':
            for g, igt in zip(spec['ch'], xc):
                if g['ch']:
                    edits.change(g, igt, rng)
            mon.hit('edited')
        if how == 'append':
            other = gen.gen_igt(rng, gen.Opts(ns=False, texts='xml', maxlen=20, tiers=(1, 3)), {},
                                'appended')
            conform({'k': 'corpus', 'attrs': {}, 'ch': [other]}, rng)
            text = write(xc)
            conforms(text, 'dump', mon)
            xc2 = xigtxml.load(io.BytesIO(text if isinstance(text, bytes) else text.encode()))
            xc2.insert(rng.randint(0, len(xc2)), model.build(other, rng))
            conforms(write(xc2), 'dump of an extended corpus', mon)
            mon.hit('appended')
            return
        if how == 'json':
            xc = xigtjson.loads(xigtjson.dumps(xc))
            mon.hit('from json')
        data = write(xc)
        conforms(data, {'json': 'conversion from JSON'}.get(how, 'dump'), mon)
        if rng.random() < .6:
            again(data, 'the document')
        return
    plain = rng.random() < .3
    data, _ = xmlgen.document(spec, rng, plain=plain)
    if how == 'read':
        require(conforms(data, 'the harness', mon, False), 'the harness made a wrong document')
        again(data, 'a document')
        return
    tmp = mon.scratch()
    src = os.path.join(tmp, 'in.xml')
    with open(src, 'wb') as f:
        f.write(data)
    if how == 'sort':
        args = [src]
        for lv in rng.sample(['igt', 'tier', 'item'], rng.choice([1, 2, 3])):
            args += ['--%s-key' % lv, rng.choice(['@id', '@type', '@n', '@name'])]
        if rng.random() < .5:
            args.append('--in-place')
        r = cli.call('sort', args)
        if r.code == 0:
            out = r.out.encode('utf-8')
            if '--in-place' in args:
                with open(src, 'rb') as f:
                    out = f.read()
            conforms(out, 'the sort command', mon)
            mon.hit('sorted')
    elif how == 'partition':
        dest = os.path.join(tmp, 'out')
        r = cli.call('partition', [dest, src, '--key-path', '/igt/' + rng.choice(['@type', '@name'])])
        if r.code == 0:
            for p, d in sorted(cli.tree(dest).items()):
                if d:
                    conforms(d, 'the partition command', mon)
                    mon.hit('partitioned')


def pairs(n, obj):
    """The specifications and the objects built from them"""
    yield n, obj
    if n['k'] in ('corpus', 'igt', 'tier'):
        for x, y in zip(n['ch'], obj):
            yield from pairs(x, y)
