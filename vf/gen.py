"""Hostile but legal inputs, as plain data that is independent of xigt.

A node is a dict with
    k      corpus | igt | tier | item | metadata | meta | mc
    id, type, attrs {key: str}, ns, nsmap (dict or None)
    md     [metadata]            (corpus, igt, tier)
    ch     [children]            (all but item)
    text   str or None           (item, meta, mc)
    name   str                   (mc)
Absent keys mean None or empty.
"""
import ast
import os

from .engine import REPO

XML_NS = 'http://www.w3.org/XML/1998/namespace'
DC = 'http://purl.org/dc/elements/1.1/'
OLAC = 'http://www.language-archives.org/OLAC/1.1/'
XSI = 'http://www.w3.org/2001/XMLSchema-instance'

REFATTRS = ('alignment', 'content', 'segmentation')

_literals = None


def literals():
    """Strings and small integers that occur in the code under test: special
    cases are more likely to be found near them."""
    global _literals
    if _literals is None:
        strs, ints = set(), set()
        for d, _, fs in sorted(os.walk(os.path.join(REPO, 'xigt'))):
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                try:
                    with open(os.path.join(d, f), encoding='utf-8') as fh:
                        tree = ast.parse(fh.read())
                except (SyntaxError, ValueError):
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant):
                        if isinstance(n.value, str) and len(n.value) < 60:
                            strs.add(n.value)
                        elif type(n.value) is int and 2 <= abs(n.value) <= 300:
                            ints.add(abs(n.value))
        _literals = (sorted(strs), sorted(ints))
    return _literals


def xml_ok(s):
    return all(c in '\t\n' or ' ' <= c <= '\ud7ff' or '\ue000' <= c <= '\ufffd'
               or c >= '\U00010000' for c in s)


# ------------------------------------------------------------------ strings

WORDS = ('inu=ga', 'ipe', 'dog', 'the', 'dogs', 'Hunde', 'a', 'I', 'walk-ed', 'NOM',
         '3SG.PST', 'ne', 'pas', 'gül', 'ağaç', 'кошка', 'собака', '나는', '학교에',
         '猫が', '走る', 'ʃaɪ', 'n̪a', 'café', 'ß', 'İ', 'ﬁ', 'عربي', 'עברית', 'x',
         '1', '42', '-', '0', 'None', 'null', 'true')
MARKUP = ('<', '>', '&', '"', "'", ']]>', '&amp;', '<a/>', '<!-- -->', '<?x?>', '&#65;',
          '</item>', '<![CDATA[', '\\', '/', '{', '}', '{0}', '{}', '{match}', '%', '%s',
          '$', '#', '_', '^', '~', '[', ']', '[0:1]', '*', '|', '@', '=', '+', ',', ':',
          ';', '(', ')', '?', '!', '`')
ODD = ('\u00a0', '\u2028', '\u0085', '\ufeff', '\ufffd', '\u200b', '\u0301', '\U0001f600',
       '\U00010348', '\U0010fffd', '\u3000', '\ue000', '\ud7ff', '\u1e9e', '\u0130', '\x7f')
CONTROL = ('\x00', '\x01', '\x0b', '\x0c', '\x1f', '\r', '\r\n', '\ufffe', '\uffff', '\ud800',
           '\udfff', '\x08')


def text(rng, xml=True, blank=True, empty=True, ws=True, maxlen=None):
    """A text. xml: only characters XML keeps; blank: may be whitespace only;
    empty: may be ''; ws: may contain white space other than single spaces"""
    while True:
        r = rng.random()
        if r < 0.30:
            s = rng.choice(WORDS)
        elif r < 0.50:
            s = ' '.join(rng.choice(WORDS) for _ in range(rng.randint(2, 6)))
        elif r < 0.62:
            s = ''.join(rng.choice(MARKUP) + (rng.choice(WORDS) if rng.random() < .5 else '')
                        for _ in range(rng.randint(1, 5)))
        elif r < 0.72:
            s = ''.join(rng.choice(ODD) + (rng.choice(WORDS) if rng.random() < .6 else '')
                        for _ in range(rng.randint(1, 4)))
        elif r < 0.80:
            s = rng.choice([' ', '  ', '\t', '\n', '\n  ']) * rng.randint(0, 2) \
                + rng.choice(WORDS) + rng.choice(['', ' ', '\n', '\t', '  ', '\n\n']) \
                + rng.choice(WORDS) + rng.choice(['', ' ', '\n '])
        elif r < 0.84:
            s = rng.choice(['', ' ', '  ', '\n', '\t', ' \n '])
        elif r < 0.90:
            s = rng.choice(literals()[0])
        elif r < 0.93:
            s = rng.choice(WORDS) * rng.choice([30, 100, 700])
        elif r < 0.96:
            s = str(rng.choice([-1, 0, 1, 7, 10, 100, 8, 1.5, 1e9]))
        elif not xml:
            s = rng.choice(WORDS) + rng.choice(CONTROL) + rng.choice(WORDS)
        else:
            s = ''.join(chr(rng.choice([rng.randint(0x20, 0x7e), rng.randint(0xa0, 0x24f),
                                        rng.randint(0x370, 0x1fff), rng.randint(0x3041, 0xd7ff),
                                        rng.randint(0x10000, 0x1ffff)]))
                        for _ in range(rng.randint(1, 12)))
        if maxlen and len(s) > maxlen:
            continue
        if xml and not xml_ok(s):
            continue
        if not empty and s == '':
            continue
        if not blank and s != '' and not s.strip():
            continue
        if not ws and (s != ' '.join(s.split())):
            continue
        return s


ID_SHAPES = ('{p}{n}', '{p}{n}', '{p}{n}', '{p}-{n}', '{p}.{n}', '{p}_{n}', '{p}{n}.{m}',
             '{p}{n}-{m}', '{p}{n}a', '{P}{n}', '{p}é{n}', '{p}{n}_', '{p}{n}.', '{p}{n}-',
             '{p}{n}語', 'id{n}', 'item{n}', 'tier{n}', '{p}1{n}')


def make_id(rng, prefix, n, hostile=True):
    if not hostile or rng.random() < 0.55:
        return '%s%d' % (prefix, n)
    return rng.choice(ID_SHAPES).format(p=prefix, P=prefix.upper(), n=n, m=rng.randint(0, 12))


class Ids:
    """Distinct identifiers; many of them are prefixes of each other."""

    def __init__(self, rng, hostile=True):
        self.rng, self.hostile, self.used, self.n = rng, hostile, set(), 0

    def new(self, prefix):
        for _ in range(50):
            n = self.rng.choice([self.n, self.n % 12, self.n * 10, 1, self.rng.randint(0, 120)]) \
                if self.hostile else self.n
            self.n += 1
            i = make_id(self.rng, prefix, n, self.hostile)
            if i not in self.used:
                self.used.add(i)
                return i
        while True:
            self.n += 1
            i = '%s%d' % (prefix, self.n)
            if i not in self.used:
                self.used.add(i)
                return i


TYPES = {
    'corpus': (None, None, 'odin', 'x y', ''),
    'igt': (None, None, 'odin', 'note', 'x', 'Größe', 'a b'),
    'tier': ('phrases', 'words', 'morphemes', 'glosses', 'translations', 'odin', 'pos', None,
             'syntax', 'Words', 'x-y', ''),
    'item': (None, None, None, 'NP', 'token', 'x'),
    'metadata': ('xigt-meta', 'xigt-meta', 'olac', None, 'intent-meta'),
    'meta': ('language', 'comment', 'author', 'judgment', 'date', None, 'x'),
}
ATTR_NAMES = ('judgment', 'doc-id', 'line-range', 'tag', 'name', 'lang', 'n', 'x.y', '_a', 'é',
              'value', 'text', 'state', 'iso-639-3', 'attr', 'namespace', 'xmlnsx', 'idx',
              'align', 'parent', 'alignments', 'class')
PREFIXES = ('dc', 'olac', 'xsi', 'a', 'ns0', 'ns1', 'x.y', 'b-c', 'é', 'xs', 'p')
URIS = (DC, OLAC, XSI, 'urn:x', 'http://example.com/a?b=1&c=2', 'http://example.com/a', 'a',
        'dc', 'http://xigt.org/1#', "it's", 'urn:ü', 'http://example.com/"q"', 'xml:ns', 'urn:X',
        'http://example.com/A', 'http://example.com/a/')
MC_NAMES = ('subject', 'language', 'x', 'igt', 'tier', 'item', 'metadata', 'meta', 'xigt-corpus',
            'é', 'a.b', 'a-b', 'entry', 'xmlns1', 'type', 'id', 'text', 'olac')


def gen_nsmap(rng, outer):
    """A map that keeps the prefixes in scope, and perhaps rebinds some."""
    m = dict(outer)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        m[rng.choice(PREFIXES)] = rng.choice(URIS)
    return m


def gen_type(rng, kind):
    r = rng.random()
    if r < .85:
        return rng.choice(TYPES[kind])
    if r < .93:
        return rng.choice(MC_NAMES)
    return rng.choice([x for x in literals()[0] if xml_ok(x)] or ['x'])


def gen_attrs(rng, scope, o, n=None, avoid=()):
    attrs = {}
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]) if n is None else n):
        key = rng.choice(ATTR_NAMES)
        if key in avoid:
            continue
        if o.ns and rng.random() < 0.35:
            uris = sorted(set(u for p, u in scope.items() if p))
            if o.ns == 'any' and rng.random() < 0.4:
                uris = list(URIS)
            if rng.random() < 0.1:
                uris = [XML_NS]
                key = rng.choice(['lang', 'base'])
            if uris:
                key = '{%s}%s' % (rng.choice(uris), key)
        attrs[key] = text(rng, o.xml, maxlen=o.maxlen)
    return attrs


class Opts:
    ns = False       # False | 'declared' | 'any': namespaces in attributes and metadata
    md = True        # metadata
    xml = True       # only what XML can represent
    ids = 'all'      # 'all' | 'some'
    maxlen = None
    hostile = True   # odd identifiers
    igts = (0, 5)
    tiers = (0, 5)
    items = (0, 6)
    refs = 'mixed'   # 'mixed' | 'none'
    nsmaps = True    # prefix declarations on any object
    attrs = True
    texts = 'any'    # 'any' | 'xml' (only what XML distinguishes: no '')

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(type(self), k):
                raise TypeError(k)
            setattr(self, k, v)


def _common(rng, o, k, scope, nsprob):
    n = {'k': k, 'attrs': {}, 'nsmap': None}
    if o.ns and o.nsmaps and rng.random() < nsprob:
        n['nsmap'] = gen_nsmap(rng, scope)
        scope = n['nsmap']
    if o.attrs:
        n['attrs'] = gen_attrs(rng, scope, o)
    return n, scope


def _text(rng, o, meta=False):
    if rng.random() < 0.15:
        return None
    x = o.texts == 'xml'
    return text(rng, o.xml, blank=not (meta and x), empty=not x, maxlen=o.maxlen)


def gen_mc(rng, o, scope, depth=0):
    n, scope = _common(rng, o, 'mc', scope, 0.15)
    n['name'] = rng.choice(MC_NAMES)
    n['id'] = n['type'] = None
    if o.attrs and rng.random() < 0.2:
        n['attrs'][rng.choice(['id', 'type'])] = text(rng, o.xml, maxlen=o.maxlen)
    n['ns'] = None
    if o.ns and rng.random() < 0.5:
        uris = sorted(set(u for p, u in scope.items()))
        if o.ns == 'any' and rng.random() < 0.4:
            uris = list(URIS)
        n['ns'] = rng.choice(uris) if uris else None
    n['text'] = _text(rng, o, True)
    n['ch'] = [gen_mc(rng, o, scope, depth + 1)
               for _ in range(rng.choice([0, 0, 0, 1, 2]) if depth < 3 else 0)]
    return n


def gen_meta(rng, o, scope, ids):
    n, scope = _common(rng, o, 'meta', scope, 0.05)
    n['id'] = ids.new('m') if rng.random() < 0.3 else None
    n['type'] = gen_type(rng, 'meta')
    n['ns'] = None
    n['text'] = _text(rng, o, True)
    n['ch'] = [gen_mc(rng, o, scope) for _ in range(rng.choice([0, 0, 1, 2]))]
    return n


def gen_metadata(rng, o, scope, ids):
    n, scope = _common(rng, o, 'metadata', scope, 0.1)
    n['id'] = ids.new('md') if rng.random() < 0.3 else None
    n['type'] = gen_type(rng, 'metadata')
    n['ns'] = None
    n['ch'] = [gen_meta(rng, o, scope, ids) for _ in range(rng.randint(0, 3))]
    return n


def gen_mds(rng, o, scope, prob):
    if not o.md or rng.random() > prob:
        return []
    ids = Ids(rng, o.hostile)
    return [gen_metadata(rng, o, scope, ids) for _ in range(rng.choice([1, 1, 2]))]


def gen_expr(rng, targets, textlen=8, one=False):
    """A reference expression over the given ids."""
    def sel():
        i = rng.choice(targets)
        if rng.random() < 0.45:
            spans = []
            for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < .997 else rng.choice([12, 40])):
                a, b = sorted((rng.randint(0, textlen), rng.randint(0, textlen)))
                spans.append('%d:%d' % (a, b))
            s = spans[0]
            for t in spans[1:]:
                s += rng.choice('+,') + t
            return '%s[%s]' % (i, s)
        return i
    s = sel()
    if not one:
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4]) if rng.random() < .997
                       else rng.choice([10, 12, 40])):
            s += rng.choice('+,') + sel()
    return s


def gen_tiers(rng, o, scope, n):
    ids = Ids(rng, o.hostile)
    tiers = []
    names = ['p', 'w', 'm', 'g', 't', 'x', 'n', 'b']
    for ti in range(n):
        t, sc = _common(rng, o, 'tier', scope, 0.08)
        t['ns'] = None
        t['id'] = ids.new(names[ti % len(names)]) if o.ids == 'all' or rng.random() < 0.7 else None
        t['type'] = gen_type(rng, 'tier')
        t['md'] = gen_mds(rng, o, sc, 0.15)
        t['ch'] = []
        tiers.append((t, sc))
    for ti, (t, sc) in enumerate(tiers):
        prefix = names[ti % len(names)]
        for _ in range(rng.randint(*o.items)):
            it, _sc = _common(rng, o, 'item', sc, 0.03)
            it['ns'] = None
            it['id'] = ids.new(prefix) if o.ids == 'all' or rng.random() < 0.7 else None
            it['type'] = gen_type(rng, 'item')
            it['text'] = _text(rng, o)
            t['ch'].append(it)
    if o.refs == 'mixed':
        withid = [t for t, _ in tiers if t['id']]
        for ti, (t, _) in enumerate(tiers):
            if rng.random() < 0.25 or not withid:
                continue
            earlier = [x for x in withid if any(x is y[0] for y in tiers[:ti])]
            pool = earlier if earlier and rng.random() < 0.85 else withid
            ref = rng.choice(pool)
            ras = rng.choice([['segmentation'], ['alignment'], ['content'],
                              ['alignment', 'content']])
            targets = [i['id'] for i in ref['ch'] if i['id']]
            for ra in ras:
                t['attrs'][ra] = ref['id']
                for it in t['ch']:
                    if targets and rng.random() < 0.8:
                        it['attrs'][ra] = gen_expr(rng, targets)
                        if rng.random() < 0.4:
                            it['text'] = None
    return [t for t, _ in tiers]


def gen_igt(rng, o, scope, iid):
    g, sc = _common(rng, o, 'igt', scope, 0.1)
    g['ns'] = None
    g['id'] = iid
    g['type'] = gen_type(rng, 'igt')
    g['md'] = gen_mds(rng, o, sc, 0.3)
    g['ch'] = gen_tiers(rng, o, sc, rng.randint(*o.tiers))
    return g


def gen_corpus(rng, o):
    c, sc = _common(rng, o, 'corpus', {}, 0.8)
    ids = Ids(rng, o.hostile)
    c['ns'] = None
    c['id'] = ids.new('c') if rng.random() < 0.5 else None
    c['type'] = gen_type(rng, 'corpus')
    c['md'] = gen_mds(rng, o, sc, 0.5)
    c['ch'] = []
    for _ in range(rng.randint(*o.igts)):
        iid = ids.new('i') if o.ids == 'all' or rng.random() < 0.7 else None
        c['ch'].append(gen_igt(rng, o, sc, iid))
    return c


# ------------------------------------------------------------------ walking

def walk(n, parent=None):
    yield n, parent
    for x in n.get('md') or []:
        yield from walk(x, n)
    for x in n.get('ch') or []:
        yield from walk(x, n)


def igts(c):
    return c['ch']


def items(g):
    return [i for t in g['ch'] for i in t['ch']]


# a small, natural corpus in the style of the documentation

def natural_igt(rng, iid, n=None, texts=None):
    """phrases > words > morphemes > glosses, translations; all by reference"""
    n = n or rng.randint(1, 5)
    ws = [rng.choice(['inu', 'ga', 'ipe', 'walked', 'dogs', 'Hunde', '학교에', 'кошка', 'a', 'x𐍈y'])
          for _ in range(n)]
    phrase = ' '.join(ws)
    words, morphs, glosses = [], [], []
    pos = 0
    mi = 0
    for wi, w in enumerate(ws, 1):
        words.append(('w%d' % wi, 'p1[%d:%d]' % (pos, pos + len(w))))
        pos += len(w) + 1
        cut = sorted(set([0, len(w)] + [rng.randint(0, len(w))
                                        for _ in range(rng.choice([0, 0, 1]))]))
        for a, b in zip(cut, cut[1:]):
            mi += 1
            morphs.append(('m%d' % mi, 'w%d[%d:%d]' % (wi, a, b)))
            if rng.random() < 0.9:
                glosses.append(('g%d' % (len(glosses) + 1), 'm%d' % mi,
                                rng.choice(['dog', 'NOM', 'walk', 'PST', '3SG', 'PL'])))

    def tier(tid, typ, attrs, its):
        return {'k': 'tier', 'id': tid, 'type': typ, 'attrs': attrs, 'ch': its}

    def item(i, attrs, txt=None):
        return {'k': 'item', 'id': i, 'attrs': attrs, 'text': txt}
    ts = [
        tier('p', 'phrases', {}, [item('p1', {}, phrase)]),
        tier('w', 'words', {'segmentation': 'p'},
             [item(i, {'segmentation': e}) for i, e in words]),
        tier('m', 'morphemes', {'segmentation': 'w'},
             [item(i, {'segmentation': e}) for i, e in morphs]),
        tier('g', 'glosses', {'alignment': 'm'},
             [item(i, {'alignment': e}, t) for i, e, t in glosses]),
        tier('t', 'translations', {'alignment': 'p'},
             [item('t1', {'alignment': 'p1'}, 'the ' + rng.choice(['dog', 'cat']) + ' eats')]),
    ]
    return {'k': 'igt', 'id': iid, 'attrs': {}, 'ch': ts}


def swell(rng, c, value=None):
    """Make a corpus large: many more IGTs, tiers or items, with little in them."""
    n = rng.choice([101, 130, 260, 520, 1001, 1030, 1300])
    value = value or (lambda: rng.choice(['', 'a', 'b', 'a b', '%d' % rng.randint(0, 99)]))
    what = rng.choice(['igts', 'igts', 'tiers', 'items', 'items'])

    def node(k, i, **kw):
        return dict({'k': k, 'id': i, 'type': None, 'attrs': {'n': value()}}, **kw)

    def tier(i, ch):
        t = node('tier', i, ns=None, nsmap=None, md=[], ch=ch)
        t['type'] = rng.choice(['words', 'x'])
        return t

    def item(i):
        return node('item', i, ns=None, nsmap=None, text=value())
    if what == 'igts':
        new = []
        for j in range(n):
            g = node('igt', 'zz%d' % j, ns=None, nsmap=None, md=[], ch=[])
            if rng.random() < .3:
                g['ch'].append(tier('zt', [item('zx')] if rng.random() < .5 else []))
            new.append(g)
    else:
        kids = [tier('zt%d' % j, []) if what == 'tiers' else item('zx%d' % j) for j in range(n)]
        if what == 'items':
            kids = [tier('zt', kids)]
        new = [node('igt', 'zz', ns=None, nsmap=None, md=[], ch=kids)]
    k = rng.randint(0, len(c['ch']))
    c['ch'][k:k] = new
    return what


def widen(rng, c, kinds=('attributes', 'prefixes', 'mds', 'metas', 'children', 'text'), sizes=(12, 40, 70, 140, 300)):
    """Give some object of a corpus very much of something."""
    n = rng.choice(sizes)
    nodes = [x for x, _ in walk(c)]

    def md(ch):
        return {'k': 'metadata', 'id': None, 'type': 'zz', 'attrs': {}, 'ns': None, 'nsmap': None, 'ch': ch}

    def meta(j):
        return {'k': 'meta', 'id': None, 'type': 'zm%d' % j, 'attrs': {}, 'ns': None, 'nsmap': None,
                'text': 'w%d' % j, 'ch': []}

    def child(j):
        return {'k': 'mc', 'id': None, 'type': None, 'ns': None, 'nsmap': None, 'name': 'zc%d' % j,
                'attrs': {}, 'text': 'v%d' % j, 'ch': []}
    what = rng.choice(kinds)
    upper = [x for x in nodes if x['k'] in ('corpus', 'igt', 'tier')]
    if what == 'attributes':
        x = rng.choice(nodes)
        x['attrs'].update(('zz%d' % j, '%d' % j) for j in range(n))
    elif what == 'prefixes':
        some = [x for x in nodes if x.get('nsmap')]
        if some:
            for x, _ in walk(rng.choice(some)):
                if x.get('nsmap') is not None:
                    x['nsmap'].update(('zp%d' % j, 'urn:zp:%d' % j) for j in range(n))
    elif what == 'text':
        some = [x for x in nodes if x.get('text')]
        if some:
            x = rng.choice(some)
            x['text'] = x['text'] + ' ' + ' '.join('w%d' % j for j in range(n * 9))
    else:
        x = rng.choice(upper)
        x['md'] = list(x.get('md') or [])
        if what == 'mds':
            x['md'] += [md([meta(j)]) for j in range(n)]
        elif what == 'metas':
            x['md'].append(md([meta(j) for j in range(n)]))
        else:
            m = dict(meta(0), text=None, ch=[child(j) for j in range(n)])
            if rng.random() < .3:
                deep = child(n)
                deep.update(text=None, ch=m['ch'])
                m['ch'] = [deep]
            x['md'].append(md([m]))
    return what
