"""C30: a part of a corpus, encoded on its own, stands on its own."""
import json
import random

from .. import gen, model, xmloracle
from ..engine import Violation, require, short
from .c01 import ENCODINGS, UNICODE
from .c03 import clean

ID = 'C30'
RULE = ('a case is a corpus, or parts that belong to none, and a sequence of parts of it to encode '
        'with an indentation and an encoding; what is written is read by an independent parser and '
        'by the library; non-trivial: some part below the corpus is encoded')
CASES = {'quick': 6000, 'thorough': 120000}
MIN_EVENTS = {'igt': 1500, 'tier': 1200, 'item': 1200, 'metadata': 900, 'meta': 800, 'mc': 700,
              'corpus': 1200, 'xml': 4500, 'json': 7500, 'prefixes from outside': 2400,
              'read in a corpus': 600, 'within a context': 4500, 'no parent': 1000}
ASSUMPTIONS = ['expat is a correct XML parser']
WRAP = {'igt': '<xigt-corpus>%s</xigt-corpus>',
        'tier': '<xigt-corpus><igt>%s</igt></xigt-corpus>',
        'item': '<xigt-corpus><igt><tier>%s</tier></igt></xigt-corpus>',
        'metadata': '<xigt-corpus>%s<igt/></xigt-corpus>',
        'meta': '<xigt-corpus><metadata>%s</metadata></xigt-corpus>',
        'mc': '<xigt-corpus><metadata><meta>%s</meta></metadata></xigt-corpus>'}
FIRST = {'igt': lambda c: c[0], 'tier': lambda c: c[0][0], 'item': lambda c: c[0][0][0],
         'metadata': lambda c: c.metadata[0], 'meta': lambda c: c.metadata[0][0],
         'mc': lambda c: c.metadata[0][0][0]}
READ = {'igt': xmloracle._igt, 'tier': xmloracle._tier, 'item': xmloracle._item,
        'metadata': xmloracle._metadata, 'meta': xmloracle._meta, 'mc': xmloracle._mc}


def generate(rng, i, tier):
    ns = rng.choice([False, 'declared', 'declared', 'any'])
    xml = rng.random() < .6
    if rng.random() < .1:
        spec = {'k': 'corpus', 'attrs': {}, 'ch': [gen.natural_igt(rng, 'i%d' % j)
                                                   for j in range(rng.randint(1, 3))]}
    else:
        spec = gen.gen_corpus(rng, gen.Opts(ns=ns, ids=rng.choice(['all', 'some']), xml=xml,
                                            texts='xml' if xml else 'any', igts=(1, 3),
                                            tiers=(0, 4)))
    if rng.random() < .004:
        gen.swell(rng, spec)
    if rng.random() < .01:
        gen.widen(rng, spec)
    clean(spec, rng)
    parts = [n for n, _ in gen.walk(spec)]
    by = {}
    for j, n in enumerate(parts):
        by.setdefault(n['k'], []).append(j)
    ascii_names = all(a.split('}')[-1].isascii() for n in parts
                      for a in list(n['attrs']) + list(n.get('nsmap') or {})
                      + [n.get('name') or ''])
    return {'spec': spec, 'ns': ns, 'xml': xml, 'route': rng.randint(0, 10 ** 6),
            'alone': rng.random() < .15,
            'parts': [[rng.choice(by[rng.choice(sorted(by))]),
                       rng.choice(ENCODINGS if ascii_names else UNICODE),
                       rng.choice([2, 2, 2, None, 0, 1, 4])]
                      for _ in range(rng.choice([1, 3, 6]))]}


def located(spec, obj):
    """All (spec, object, scope around it, the same in XML) of a corpus, in the
    order of gen.walk"""
    found = {}

    def visit(n, o, outer, xouter, parent):
        found[id(n)] = (n, o, outer, xouter, parent)
        own = n.get('nsmap')
        scope = outer if own is None else own
        xscope = xouter if own is None else dict(xouter, **own)
        if n['k'] in ('corpus', 'igt', 'tier'):
            for x, y in zip(n.get('md') or [], o.metadata):
                visit(x, y, scope, xscope, o)
        if n['k'] != 'item':
            for x, y in zip(n.get('ch') or [], o):
                visit(x, y, scope, xscope, o)
    visit(spec, obj, {}, {}, None)
    return [found[id(n)] for n, _ in gen.walk(spec)]


def encoder(mod, k):
    if k == 'corpus':
        return mod.encode if hasattr(mod, 'encode') else mod.encode_xigtcorpus
    return getattr(mod, 'encode_' + {'mc': 'metachild'}.get(k, k))


def run(case, mon):
    from xigt.codecs import xigtjson, xigtxml
    spec = case['spec']
    xc = model.build(spec, random.Random(case['route']))
    whole = located(spec, xc)
    how = 'within' if case['ns'] == 'any' or case['alone'] else 'equal'
    mon.trivial = True
    for j, enc, indent in case['parts']:
        n, o, outer, xouter, parent = whole[j]
        k = n['k']
        if case['alone']:
            o, outer, xouter, parent = model.build(n, random.Random(case['route'])), {}, {}, None
            mon.hit('no parent')
        mon.trivial = mon.trivial and k == 'corpus'
        if outer and n.get('nsmap') is None:
            mon.hit('prefixes from outside')
        mon.hit(k)
        mon.state(k, enc, indent, len(outer), n.get('nsmap') is None, len(n.get('ch') or []),
                  len(n['attrs']), n.get('ns') is None)
        if case['xml']:
            xml_part(xigtxml, n, o, xouter, enc, indent, how, mon)
        json_part(xigtjson, n, o, outer, parent, mon)
    d = model.diff(model.expected(spec), model.snapshot(xc))
    require(d is None, 'encoding parts changed the corpus: {}', d)


def xml_part(xigtxml, n, o, xouter, enc, indent, how, mon):
    k = n['k']
    f = encoder(xigtxml, k)
    want = model.expected(n, xouter, xml=True)
    doc = f(o, encoding=enc, indent=indent)
    require(isinstance(doc, str if enc == 'unicode' else bytes), 'encoding {} as {} gives {}',
            k, enc, type(doc).__name__)
    require(f(o, encoding=enc, indent=indent) == doc, 'encoding the same {} again differs', k)
    if enc == 'unicode' and indent == 2:
        require(f(o) == doc, 'the defaults for {} are not unicode and indent 2', k)
    try:
        if k == 'corpus':
            seen = xmloracle.read(doc)
        else:
            seen = READ[k](xmloracle.parse(doc))
    except xmloracle.Malformed as e:
        raise Violation('the encoded %s is not well formed: %s\n%s' % (k, e, short(doc, 1500)))
    d = model.diff(want, seen, nsmap=how)
    require(d is None, '{} written alone, {}\n{}', k, d, short(doc, 1500))
    if not any(x['k'] in ('meta', 'mc') and x.get('text') and not x['text'].strip()
               for x, _ in gen.walk(n)):
        d = xmloracle.indentation(doc, indent)
        require(d is None, '{} written with the indentation {}, {}', k, indent, d)
        mon.hit('indentation')
    mon.hit('xml')
    if enc != 'unicode' or k == 'corpus':
        return
    c = xigtxml.loads(WRAP[k] % doc)
    got = model.snapshot(FIRST[k](c))
    d = model.diff(want, got, nsmap=how)
    require(d is None, '{} written alone and read in a corpus, {}', k, d)
    mon.hit('read in a corpus')


def json_part(xigtjson, n, o, outer, parent, mon):
    k = n['k']
    want = model.expected(n, outer)
    f = encoder(xigtjson, k)
    decode = xigtjson.decode if k == 'corpus' else getattr(
        xigtjson, 'decode_' + {'mc': 'metachild'}.get(k, k))
    x = f(o)
    text = json.dumps(x)
    back = decode(json.loads(text))
    d = model.diff(want, model.snapshot(back))
    require(d is None, '{} encoded for JSON alone, {}\n{}', k, d, short(text, 1500))
    require(back == o and o == back and not back != o,
            'a {} decoded alone is not equal to the original', k)
    model.check_links(back)
    require(json.dumps(x) == text and json.dumps(f(o)) == text,
            'encoding the same {} again differs', k)
    mon.hit('json')
    if k != 'corpus' and parent is not None:
        # as a part of something that declares the outer prefixes
        ctx = dict(outer)
        y = f(o, ctx)
        back = decode(json.loads(json.dumps(y)), ctx)
        require(ctx == outer, 'the context was changed')
        d = model.diff(want, model.snapshot(back), nsmap='ignore')
        require(d is None, '{} encoded in its context, {}\n{}', k, d, short(y, 1500))
        mon.hit('within a context')
