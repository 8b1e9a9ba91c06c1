"""C01: XigtXML round trip preserves the corpus."""
import io
import os

from .. import gen, model, xmloracle
from ..engine import Violation, require, short

ID = 'C01'
RULE = ('a case is a corpus spec with a construction route, a destination, an encoding, an '
        'indentation and a source; non-trivial: it has at least one igt or metadata entry')
CASES = {'quick': 7000, 'thorough': 60000}
MIN_EVENTS = {'round trip': 2000, 'ns any': 100, 'ns declared': 100, 'dest path': 100,
              'dest textfile': 100, 'second encoding': 2000,
              'same bytes at once': 250}
ASSUMPTIONS = ['expat is a correct XML parser']

ENCODINGS = ('utf-8', 'utf-8', 'utf-8', 'unicode', 'utf-16', 'us-ascii', 'latin-1', 'iso-8859-15',
             'cp1252', 'UTF-8')
UNICODE = ('utf-8', 'utf-8', 'unicode', 'utf-16', 'UTF-8')


def generate(rng, i, tier):
    ns = rng.choice([False, 'declared', 'any'])
    big = rng.random() < 0.03
    o = gen.Opts(ns=ns, ids=rng.choice(['all', 'some']), texts=rng.choice(['any', 'xml']),
                 igts=(0, 60) if big else (0, 4), tiers=(0, 3) if big else (0, 5))
    if rng.random() < 0.1:
        spec = {'k': 'corpus', 'attrs': {}, 'ch': [gen.natural_igt(rng, 'i%d' % j)
                                                   for j in range(rng.randint(1, 8))]}
    else:
        spec = gen.gen_corpus(rng, o)
    if rng.random() < .004:
        gen.swell(rng, spec)
    if rng.random() < .01:
        gen.widen(rng, spec)
    if ns == 'any' and rng.random() < 0.3:
        default_ns(rng, spec)
    # element and attribute names cannot be written as character references
    ascii_names = all(a.split('}')[-1].isascii() for n, _ in gen.walk(spec)
                      for a in list(n['attrs']) + list(n.get('nsmap') or {})
                      + [n.get('name') or ''])
    return {'spec': spec, 'ns': ns, 'route': rng.randint(0, 10 ** 6),
            'dest': rng.choice(['dumps', 'dumps', 'path', 'bytesio', 'stringio', 'textfile',
                                'binfile']),
            'encoding': rng.choice(ENCODINGS if ascii_names else UNICODE),
            'indent': rng.choice([2, 2, 2, None, 0, 1, 4, 7]),
            'source': rng.choice(['str', 'bytes', 'path', 'binfile', 'textfile', 'stringio',
                                  'bytesio'])}


def default_ns(rng, spec):
    """Bind the default prefix at a foreign element all below which have a
    namespace."""
    def all_ns(n):
        return n['ns'] and all(all_ns(x) for x in n['ch'])
    for n, _ in gen.walk(spec):
        if n['k'] == 'mc' and all_ns(n) and rng.random() < 0.7:
            n['_default'] = rng.choice([n['ns'], rng.choice(gen.URIS)])
    scopes(spec, {})


def scopes(n, outer):
    m = n.get('nsmap')
    scope = outer if m is None else dict(outer, **m)
    d = n.pop('_default', None)
    if d:
        scope = dict(scope)
        scope[''] = d
        n['nsmap'] = scope
    elif m is not None:
        n['nsmap'] = scope
    for x in n.get('md') or []:
        scopes(x, scope)
    for x in n.get('ch') or []:
        scopes(x, scope)


def write(xc, case, mon):
    """The document, as written to the destination: (str or None, bytes)"""
    from xigt.codecs import xigtxml
    enc, ind, dest = case['encoding'], case['indent'], case['dest']
    if dest == 'dumps':
        s = xigtxml.dumps(xc, encoding=enc, indent=ind)
        require(isinstance(s, str if enc == 'unicode' else bytes),
                'dumps(encoding={}) gives {}', enc, type(s).__name__)
        return s
    if dest == 'stringio':
        f = io.StringIO()
        xigtxml.dump(f, xc, encoding='unicode', indent=ind)
        return f.getvalue()
    if dest == 'bytesio' and enc != 'unicode':
        f = io.BytesIO()
        xigtxml.dump(f, xc, encoding=enc, indent=ind)
        return f.getvalue()
    path = os.path.join(mon.scratch(), 'out.xml')
    if dest == 'textfile':
        with open(path, 'w', encoding='utf-8') as f:
            xigtxml.dump(f, xc, encoding=enc, indent=ind)
    elif dest == 'binfile' and enc != 'unicode':
        with open(path, 'wb') as f:
            xigtxml.dump(f, xc, encoding=enc, indent=ind)
    else:
        if case['indent'] == 2 and enc == 'utf-8':
            xigtxml.dump(path, xc)
        else:
            xigtxml.dump(path, xc, encoding=enc, indent=ind)
    with open(path, 'rb') as f:
        return f.read()


def read(doc, case, mon):
    from xigt.codecs import xigtxml
    src = case['source']
    b = doc if isinstance(doc, bytes) else doc.encode('utf-8')
    if isinstance(doc, str) and src in ('str', 'stringio'):
        return xigtxml.loads(doc) if src == 'str' else xigtxml.load(io.StringIO(doc))
    if src == 'bytesio':
        return xigtxml.load(io.BytesIO(b))
    if src in ('path', 'binfile', 'textfile'):
        path = os.path.join(mon.scratch(), 'in.xml')
        with open(path, 'wb') as f:
            f.write(b)
        if src == 'path':
            return xigtxml.load(path)
        if src == 'textfile' and (isinstance(doc, str) or
                                  case['encoding'].lower() in ('utf-8', 'us-ascii')):
            with open(path, 'r', encoding='utf-8', newline='') as f:
                return xigtxml.load(f)
        with open(path, 'rb') as f:
            return xigtxml.load(f)
    return xigtxml.loads(b)


def as_bytes(d):
    return d.encode('utf-8') if isinstance(d, str) else d


def as_text(d, kw):
    return d if isinstance(d, str) else d.decode(
        'utf-8' if kw['encoding'] == 'unicode' else kw['encoding'])


def blank_meta(spec):
    return any(n['k'] in ('meta', 'mc') and n.get('text') and not n['text'].strip()
               for n, _ in gen.walk(spec))


def rebinds(n, outer):
    """Is a prefix bound to another uri within its scope, or a uri bound to
    several prefixes?"""
    m = outer if n.get('nsmap') is None else n['nsmap']
    if any(outer.get(p, u) != u for p, u in m.items()) or len(set(m.values())) < len(m):
        return True
    return any(rebinds(x, m) for x in (n.get('md') or []) + (n.get('ch') or []))


def run(case, mon):
    import random
    from xigt.codecs import xigtxml
    spec = case['spec']
    mon.trivial = not spec.get('ch') and not spec.get('md')
    xc = model.build(spec, random.Random(case['route']))
    doc = write(xc, case, mon)
    want = model.expected(spec, xml=True)
    how = 'within' if case['ns'] == 'any' else 'equal'
    # what an independent parser sees in the document
    try:
        seen = xmloracle.read(doc)
    except xmloracle.Malformed as e:
        raise Violation('the document is not well formed: %s\n%s' % (e, short(doc, 1500)))
    d = model.diff(want, seen, nsmap=how)
    require(d is None, 'written document, {}', d)
    if not blank_meta(spec):
        d = xmloracle.indentation(doc, case['indent'])
        require(d is None, 'with the indentation {}, {}', case['indent'], d)
        mon.hit('indentation')
    xc2 = read(doc, case, mon)
    got = model.snapshot(xc2)
    d = model.diff(want, got, nsmap=how)
    require(d is None, 'read again, {}', d)
    model.check_links(xc2)
    if model.diff(model.expected(spec), got, nsmap='ignore') is None:
        require(xc == xc2 and xc2 == xc and not (xc != xc2),
                'the corpus read again is not equal to the original')
        mon.hit('equal corpora')
    # the original is unchanged
    d = model.diff(model.expected(spec), model.snapshot(xc))
    require(d is None, 'writing changed the corpus: {}', d)
    kw = {'encoding': 'unicode' if isinstance(doc, str) else case['encoding'],
          'indent': case['indent']}
    doc2 = xigtxml.dumps(xc2, **kw)
    if case['ns'] == 'any' or rebinds(spec, {}) or blank_meta(spec):
        # the declarations may be simplified once, but nothing else changes
        d = model.diff(seen, xmloracle.read(doc2))
        require(d is None, 'encoding the re-read corpus, {}', d)
        doc, doc2 = doc2, xigtxml.dumps(xigtxml.loads(doc2), **kw)
    else:
        mon.hit('same bytes at once')
    if as_bytes(doc2) != as_bytes(doc):
        x, y = as_text(doc, kw), as_text(doc2, kw)
        i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        raise Violation('encoding the re-read corpus gives another document, at %d: %s, not %s'
                        % (i, short(y[max(0, i - 80):i + 80]), short(x[max(0, i - 80):i + 80])))
    mon.hit('round trip')
    mon.hit('second encoding')
    mon.hit('ns %s' % case['ns'])
    mon.hit('dest %s' % case['dest'])
    mon.hit('encoding %s' % case['encoding'])
    for n, _ in gen.walk(spec):
        mon.state(n['k'], bool(n.get('id')), n.get('type') is None, n.get('text') is None,
                  len(n.get('ch') or []), len(n.get('attrs') or {}), n.get('ns') is None,
                  n.get('nsmap') is None)
