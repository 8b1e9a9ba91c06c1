"""C02: reading XigtXML is faithful to the document."""
import glob
import io
import os
import random

from .. import gen, model, xmlgen, xmloracle
from ..engine import REPO, Inconclusive, require

ID = 'C02'
RULE = ('a case is a corpus spec and a seed for one of many ways of writing it as XML, an encoding '
        'and a way of delivering the bytes, or an example document of the repository; '
        'non-trivial: the document has at least one igt or metadata entry')
CASES = {'quick': 5000, 'thorough': 150000}
MIN_EVENTS = {'documents': 4000, 'foreign elements': 1000, 'short reads': 300, 'over 16 KiB': 60,
              'example documents': 5}
ASSUMPTIONS = ['expat is a correct XML parser']

EXAMPLES = sorted(glob.glob(os.path.join(REPO, 'examples', '*', '*.xml')))


def generate(rng, i, tier):
    if i < len(EXAMPLES):
        return {'example': os.path.relpath(EXAMPLES[i], REPO)}
    big = rng.random() < 0.04
    o = gen.Opts(ns=rng.choice([False, 'declared', 'any', 'any']), texts='xml',
                 ids=rng.choice(['all', 'some']), igts=(1, 60) if big else (0, 4))
    spec = gen.gen_corpus(rng, o)
    if rng.random() < .004:
        gen.swell(rng, spec)
    if rng.random() < .01:
        gen.widen(rng, spec)
    ascii_names = all(a.split('}')[-1].isascii() and a.isascii() for n, _ in gen.walk(spec)
                      for a in list(n['attrs']) + list(n.get('nsmap') or {})
                      + [n.get('name') or ''] + list((n.get('nsmap') or {}).values())
                      + [n.get('ns') or ''])
    return {'spec': spec, 'seed': rng.randint(0, 10 ** 9),
            'encoding': rng.choice(['utf-8'] * 6 + ['utf-16', 'us-ascii', 'latin-1']
                                   if ascii_names else ['utf-8'] * 4 + ['utf-16']),
            'pad': rng.choice([None, None, None, rng.randint(15000, 17000)]),
            'chunks': rng.choice([None, None, [1], [7, 1, 300], [4096],
                                  [rng.randint(1, 50) for _ in range(7)]]),
            'how': rng.choice(['bytes', 'bytesio', 'path', 'stream', 'str', 'textfile'])}


def run(case, mon):
    from xigt.codecs import xigtxml
    if 'example' in case:
        with open(os.path.join(REPO, case['example']), 'rb') as f:
            doc = f.read()
        case = dict(case, how='bytes', chunks=None, encoding='utf-8')
        mon.hit('example documents')
        want = xmloracle.read(doc)
    else:
        rng = random.Random(case['seed'])
        doc, _ = xmlgen.document(case['spec'], rng, encoding=case['encoding'], pad=case['pad'])
        try:
            want = xmloracle.read(doc)
        except xmloracle.Malformed as e:
            raise Inconclusive('the harness wrote a malformed document: %s' % e)
        # the harness agrees with itself on what it has written
        d = model.diff(model.expected(case['spec'], xml=True), want, nsmap='ignore')
        if d:
            raise Inconclusive('the harness wrote another document: ' + d)
        mon.trivial = not (case['spec'].get('ch') or case['spec'].get('md'))
    how = case['how']
    if how == 'bytes':
        xc = xigtxml.loads(doc)
    elif how == 'bytesio':
        xc = xigtxml.load(io.BytesIO(doc))
    elif how == 'stream':
        xc = xigtxml.load(xmlgen.Stream(doc, case['chunks']))
        mon.hit('short reads')
    elif how == 'str' and case['encoding'] in ('utf-8', 'us-ascii', 'latin-1'):
        xc = xigtxml.loads(doc.decode('utf-8-sig' if case['encoding'] == 'utf-8'
                                      else case['encoding']))
    else:
        path = os.path.join(mon.scratch(), 'in.xml')
        with open(path, 'wb') as f:
            f.write(doc)
        if how == 'textfile' and case['encoding'] in ('utf-8', 'us-ascii'):
            with open(path, encoding='utf-8-sig') as f:
                xc = xigtxml.load(f)
        elif how == 'textfile':
            with open(path, 'rb') as f:
                xc = xigtxml.load(f)
        else:
            xc = xigtxml.load(path)
    d = model.diff(want, model.snapshot(xc))
    require(d is None, 'read differently from an independent parser, {}', d)
    model.check_links(xc)
    mon.hit('documents')
    if len(doc) > 16384:
        mon.hit('over 16 KiB')
    for n, _ in gen.walk(want):
        mon.state(n['k'], bool(n.get('id')), n.get('text') is None, len(n.get('ch') or []),
                  n.get('name'), n['ns'] is None, len(n['nsmap']))
        if n['k'] == 'mc':
            mon.hit('foreign elements')
