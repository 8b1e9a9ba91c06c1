"""C05: full, incremental and transient loading agree."""
import gc
import io
import os
import random

from .. import gen, model, xmlgen, xmloracle
from ..engine import Inconclusive, Violation, require, short

ID = 'C05'
RULE = ('a case is a document (or a list of IGTs behind a generator, or JSON) and a history of '
        'operations on several iterators of the incrementally loaded corpus; non-trivial: there '
        'is at least one IGT and one iteration beside the complete one')
CASES = {'quick': 5000, 'thorough': 120000}
MIN_EVENTS = {'transient igts': 4000, 'incremental steps': 20000, 'complete iterations': 5000,
              'abandoned iterators': 2000, 'over 16 KiB': 40}


def generate(rng, i, tier):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8])
    big = rng.random() < .03
    if big or rng.random() < .3:
        spec = {'k': 'corpus', 'attrs': {'x': 'y'}, 'nsmap': {'dc': gen.DC},
                'md': gen.gen_mds(rng, gen.Opts(texts='xml', ns='declared'), {'dc': gen.DC}, .5),
                'ch': [gen.natural_igt(rng, 'i%d' % j)
                       for j in range(rng.choice([40, 70, 130]) if big else n)]}
    else:
        spec = gen.gen_corpus(rng, gen.Opts(ns='declared', texts='xml',
                                            ids=rng.choice(['all', 'some']), igts=(n, n),
                                            tiers=(0, 3), items=(0, 3)))
    if rng.random() < .01:
        gen.widen(rng, spec)
    ops = []
    for _ in range(rng.randint(0, 25)):
        ops.append(rng.choice([['new'], ['next', rng.randint(0, 5), rng.choice([1, 1, 1, 2, 5])],
                               ['next', rng.randint(0, 5), 1], ['drop', rng.randint(0, 5)],
                               ['list'], ['igts'], ['len'], ['get'], ['for', rng.randint(0, 9)],
                               ['exhaust', rng.randint(0, 5)], ['query']]))
    return {'spec': spec, 'seed': rng.randint(0, 10 ** 9), 'ops': ops,
            'source': rng.choice(['xml', 'xml', 'xml', 'chunked', 'api', 'json', 'text', 'xml path',
                                  'json path'])}


def load(case, doc, mode, tmp):
    from xigt import XigtCorpus
    from xigt.codecs import xigtjson, xigtxml
    spec, src = case['spec'], case['source']
    if src == 'xml':
        return xigtxml.load(io.BytesIO(doc), mode=mode)
    if src == 'chunked':
        return xigtxml.load(xmlgen.Stream(doc, [50, 1, 700]), mode=mode)
    if src == 'json':
        s = xigtjson.dumps(model.build(spec))
        return xigtjson.load(io.StringIO(s), mode=mode)
    if src == 'text':
        return xigtxml.load(io.StringIO(doc.decode('utf-8')), mode=mode)
    if src == 'xml path':
        p = os.path.join(tmp, 'c.xml')
        with open(p, 'wb') as f:
            f.write(doc)
        return xigtxml.load(p, mode=mode)
    if src == 'json path':
        p = os.path.join(tmp, 'c.json')
        xigtjson.dump(p, model.build(spec))
        return xigtjson.load(p, mode=mode)
    return XigtCorpus(
        id=spec.get('id'), type=spec.get('type'), attributes=spec.get('attrs'),
        metadata=[model.build(m) for m in spec.get('md') or []], nsmap=spec.get('nsmap'),
        igts=(model.build(g) for g in spec['ch']), mode=mode)


def top(xc):
    return {'k': 'corpus', 'id': xc.id, 'type': xc.type, 'attrs': dict(xc.attributes),
            'ns': xc.namespace, 'nsmap': dict(xc.nsmap),
            'md': [model.snapshot(m) for m in xc.metadata]}


def run(case, mon):
    rng = random.Random(case['seed'])
    doc, _ = xmlgen.document(case['spec'], rng, plain=True)
    if len(doc) > 16384:
        mon.hit('over 16 KiB')
    if case['source'] in ('xml', 'chunked', 'text', 'xml path'):
        want = xmloracle.read(doc)
    else:
        want = model.expected(case['spec'])
    W = want['ch']
    mon.trivial = not W or not case['ops']
    corpora = {m: load(case, doc, m, mon.scratch()) for m in ('full', 'transient', 'incremental')}
    for m, xc in corpora.items():
        require(xc.mode == m, 'a corpus loaded in {} mode has mode {}', m, xc.mode)
        d = model.diff(dict(want, ch=[]), top(xc))
        require(d is None, 'corpus loaded in {} mode, {}', m, d)

    def same(igt, k, xc, mode):
        d = model.diff(W[k], model.snapshot(igt))
        require(d is None, 'IGT {} in {} mode: {}', k, mode, d)
        require(igt.corpus is xc, 'IGT {} in {} mode belongs to another corpus', k, mode)
        for key in list(xc.attributes)[:1]:
            require(igt.get_attribute(key, default=None, inherit=True) is not None,
                    'IGT {} in {} mode does not inherit attributes', k, mode)

    full = corpora['full']
    require(len(full) == len(W), 'full mode: {} IGTs, not {}', len(full), len(W))
    for k, igt in enumerate(full):
        same(igt, k, full, 'full')
    xc = corpora['transient']
    n = 0
    for k, igt in enumerate(xc):
        require(k < len(W), 'transient mode yields more than {} IGTs', len(W))
        same(igt, k, xc, 'transient')
        n += 1
        mon.hit('transient igts')
    require(n == len(W), 'transient mode yields {} IGTs, not {}', n, len(W))
    history(case, corpora['incremental'], W, same, mon, full)


def history(case, xc, W, same, mon, full):
    seen = {}          # position -> the object delivered there
    its = []           # [iterator, position]
    loaded = 0
    trace = []

    def got(igt, k):
        nonlocal loaded
        if k in seen:
            require(seen[k] is igt, 'after {}: IGT {} is delivered as another object', trace, k)
        else:
            same(igt, k, xc, 'incremental')
            seen[k] = igt
        loaded = max(loaded, k + 1)
        mon.hit('incremental steps')

    def step(it):
        try:
            igt = next(it[0])
        except StopIteration:
            require(it[1] == len(W), 'after {}: an iterator ends after {} of {} IGTs', trace,
                    it[1], len(W))
            mon.hit('complete iterations')
            its.remove(it)
            return False
        require(it[1] < len(W), 'after {}: an iterator yields more than {} IGTs', trace, len(W))
        got(igt, it[1])
        it[1] += 1
        return True

    def complete(seq, what):
        seq = list(seq)
        require(len(seq) == len(W), 'after {}: {} yields {} IGTs, not {}', trace, what, len(seq),
                len(W))
        for k, igt in enumerate(seq):
            got(igt, k)
        mon.hit('complete iterations')

    for op in case['ops'] + [['list'], ['len'], ['get']]:
        trace.append(op)
        if len(trace) > 30:
            trace.pop(0)
        o = op[0]
        if o == 'new':
            its.append([iter(xc), 0])
        elif o == 'next' and its:
            it = its[op[1] % len(its)]
            for _ in range(op[2]):
                if not step(it):
                    break
        elif o == 'exhaust' and its:
            it = its[op[1] % len(its)]
            while step(it):
                pass
        elif o == 'drop' and its:
            it = its.pop(op[1] % len(its))
            if hasattr(it[0], 'close') and op[1] % 2:
                it[0].close()
            del it
            mon.hit('abandoned iterators')
        elif o == 'list':
            complete(xc, 'a complete iteration')
        elif o == 'igts':
            complete(xc.igts, 'igts')
        elif o == 'query':
            from xigt import xigtpath
            r = xigtpath.findall(xc, 'igt')
            complete(r, 'the query "igt"')
        elif o == 'for':
            for k, igt in enumerate(xc):
                require(k < len(W), 'after {}: too many IGTs', trace)
                got(igt, k)
                if k >= op[1]:
                    mon.hit('abandoned iterators')
                    break
        elif o == 'len':
            require(loaded <= len(xc) <= len(W), 'after {}: {} IGTs are stored, {} have been loaded', trace,
                    len(xc), loaded)
        elif o == 'get':
            for k in range(loaded):
                require(xc[k] is seen.get(k, xc[k]), 'after {}: position {} holds another IGT',
                        trace, k)
                if W[k]['id'] is not None:
                    require(xc.get(W[k]['id']) is xc[k],
                            'after {}: id {} finds another IGT', trace, W[k]['id'])
        mon.state(o, min(len(its), 4), loaded == len(W), min(loaded, 4),
                  tuple(sorted(min(i[1], 3) for i in its)))
    for it in list(its):      # the others go on, too
        while step(it):
            pass
    require(len(xc) == len(W), 'at the end: {} IGTs are stored, not {}', len(xc), len(W))
    require(xc == full and full == xc, 'incrementally loaded corpus differs from the full one')
    model.check_links(xc, 'incremental: ')
