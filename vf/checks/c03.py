"""C03: XigtJSON round trip and format conversion preserve the corpus."""
import io
import json
import os
import random

from .. import gen, model, xmloracle
from ..engine import require, short
from .c01 import blank_meta, rebinds

ID = 'C03'
RULE = ('a case is a corpus spec with a construction route, a destination, an indentation, and '
        'possibly a conversion through XML; non-trivial: at least one igt or metadata entry')
CASES = {'quick': 8000, 'thorough': 150000}
MIN_EVENTS = {'json round trip': 4000, 'xml-json-xml': 500, 'json-xml-json': 500,
              'same text at once': 500, 'empty text': 150, 'beyond XML': 100}
PREFIXLIKE = set(gen.PREFIXES) | {'dc'}


def clean(spec, rng):
    """Namespaces that are spelled like a prefix are ambiguous in JSON."""
    def fix(u):
        return 'urn:' + u if u in PREFIXLIKE else u
    for n, _ in gen.walk(spec):
        if n.get('ns'):
            n['ns'] = fix(n['ns'])
        if n.get('nsmap'):
            n['nsmap'] = {p: fix(u) for p, u in n['nsmap'].items()}
        n['attrs'] = {('{%s}%s' % (fix(k[1:].split('}')[0]), k.split('}', 1)[1])
                       if k.startswith('{') else k): v for k, v in n['attrs'].items()}


def generate(rng, i, tier):
    conv = rng.choice([None, None, 'xml-json-xml', 'json-xml-json'])
    ns = rng.choice([False, 'declared', 'any'])
    big = rng.random() < 0.02
    spec = gen.gen_corpus(rng, gen.Opts(
        ns=ns, xml=bool(conv) or rng.random() < .6, ids=rng.choice(['all', 'some']),
        texts='xml' if conv else 'any', igts=(0, 60) if big else (0, 4),
        tiers=(0, 3) if big else (0, 5)))
    if rng.random() < .004:
        gen.swell(rng, spec, lambda: rng.choice(['a', 'b', 'c d', '%d' % rng.randint(0, 99)]))
    if rng.random() < .01:
        gen.widen(rng, spec)
    clean(spec, rng)
    if not conv and rng.random() < .3:
        for n, _ in gen.walk(spec):   # structural elements may have a namespace
            if n['k'] != 'mc' and rng.random() < .3:
                n['ns'] = rng.choice([gen.DC, 'urn:q'])
    if rng.random() < .2:
        for n, _ in gen.walk(spec):   # the default prefix
            if n.get('nsmap') and rng.random() < .5:
                n['nsmap'][''] = rng.choice([gen.DC, 'urn:q']) if not conv else 'urn:q'
                if conv:
                    del n['nsmap']['']
        widen(spec, {})
    return {'spec': spec, 'ns': ns, 'conv': conv, 'route': rng.randint(0, 10 ** 6),
            'indent': rng.choice([2, 2, None, 0, 1, 4]),
            'dest': rng.choice(['dumps', 'dumps', 'path', 'fh', 'stringio']),
            'source': rng.choice(['loads', 'path', 'fh', 'stringio', 'bytes'])}


def widen(n, outer):
    m = n.get('nsmap')
    if m is not None:
        n['nsmap'] = m = dict(outer, **m)
    for x in (n.get('md') or []) + (n.get('ch') or []):
        widen(x, outer if m is None else m)


def write(xc, case, mon):
    from xigt.codecs import xigtjson
    if case['dest'] == 'dumps':
        return xigtjson.dumps(xc, indent=case['indent'])
    if case['dest'] == 'stringio':
        f = io.StringIO()
        xigtjson.dump(f, xc, indent=case['indent'])
        return f.getvalue()
    path = os.path.join(mon.scratch(), 'out.json')
    if case['dest'] == 'path':
        xigtjson.dump(path, xc, indent=case['indent'])
    else:
        with open(path, 'w', encoding='utf-8') as f:
            xigtjson.dump(f, xc, indent=case['indent'])
    with open(path, encoding='utf-8', newline='') as f:
        return f.read()


def read(s, case, mon):
    from xigt.codecs import xigtjson
    src = case['source']
    if src == 'stringio':
        return xigtjson.load(io.StringIO(s))
    if src in ('path', 'fh'):
        path = os.path.join(mon.scratch(), 'in.json')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(s)
        if src == 'path':
            return xigtjson.load(path)
        with open(path, encoding='utf-8') as f:
            return xigtjson.load(f)
    if src == 'bytes':
        return xigtjson.load(io.BytesIO(s.encode('utf-8')))
    return xigtjson.loads(s)


def run(case, mon):
    from xigt.codecs import xigtjson, xigtxml
    spec = case['spec']
    mon.trivial = not spec.get('ch') and not spec.get('md')
    xc = model.build(spec, random.Random(case['route']))
    want = model.expected(spec)
    how = 'within' if case['ns'] == 'any' else 'equal'
    if not case['conv']:
        s = write(xc, case, mon)
        json.loads(s)
        lines = s.split('\n')
        require((len(lines) == 1) if case['indent'] is None or len(s) < 3 else
                len(lines) > 1 and len(lines[1]) - len(lines[1].lstrip(' ')) == case['indent'],
                'with the indentation {}, the JSON is {}', case['indent'], short(s))
        xc2 = read(s, case, mon)
        d = model.diff(want, model.snapshot(xc2))
        require(d is None, 'read from JSON again, {}', d)
        require(xc == xc2 and xc2 == xc and not xc != xc2,
                'the corpus read from JSON is not equal to the original')
        model.check_links(xc2)
        d = model.diff(want, model.snapshot(xc))
        require(d is None, 'writing changed the corpus: {}', d)
        s2 = xigtjson.dumps(xc2, indent=case['indent'])
        if rebinds(spec, {}):
            s, s2 = s2, xigtjson.dumps(xigtjson.loads(s2), indent=case['indent'])
        else:
            mon.hit('same text at once')
        require(s == s2, 'the JSON text differs the second time:\n{}\n{}', short(s, 2000),
                short(s2, 2000))
        mon.hit('json round trip')
        if any(n.get('text') == '' for n, _ in gen.walk(spec)):
            mon.hit('empty text')
        if not gen.xml_ok(json.dumps(spec, ensure_ascii=False)):
            mon.hit('beyond XML')
    else:
        want = model.expected(spec, xml=True)
        if case['conv'] == 'xml-json-xml':
            a = xigtxml.loads(xigtxml.dumps(xc, indent=case['indent']))
            b = read(write(a, case, mon), case, mon)
            c = xigtxml.loads(xigtxml.dumps(b, indent=case['indent']))
        else:
            a = xigtjson.loads(xigtjson.dumps(xc))
            b = xigtxml.loads(xigtxml.dumps(a, indent=case['indent']))
            c = read(write(b, case, mon), case, mon)
        for x, what in ((b, 'the other format'), (c, 'the first format again')):
            d = model.diff(want, model.snapshot(x), nsmap=how)
            require(d is None, '{}, in {}, {}', case['conv'], what, d)
        if a is not None and not blank_meta(spec):
            require(a == b and b == c and c == a and not a != c,
                    '{}: the corpora are not equal', case['conv'])
        model.check_links(c)
        mon.hit(case['conv'])
        mon.hit('json round trip')
    for n, _ in gen.walk(spec):
        mon.state(n['k'], bool(n.get('id')), n.get('type') is None, n.get('text') is None,
                  n.get('text') == '', len(n.get('attrs') or {}), n.get('ns') is None,
                  n.get('nsmap') is None)
