"""C19: reading and writing are pure, and safe to run concurrently."""
import copy
import io
import json
import os
import random
import threading
import sys

from .. import gen, model, paths
from ..engine import Violation, require, short
from ..interleave import Interleaver

ID = 'C19'
RULE = ('a case is either a corpus, observed before and after a random sequence of serializations '
        'and queries, and after changes to everything that was decoded along with it; or several '
        'corpora, read, written and queried by as many threads, whose interleaving at the lines of '
        'the library is decided by a seeded scheduler; or a duel: one operation of one thread, cut '
        'short at each of many of its lines while others do the same with their own corpora; '
        'non-trivial: there is an IGT')
CASES = {'quick': 1800, 'thorough': 60000}
MIN_EVENTS = {'pure operations': 2000, 'aliasing probes': 900, 'thread schedules': 130,
              'thread switches': 40000, 'duels': 1500, 'free threads': 60, 'any order': 300}


def gen_spec(rng, n=3, ns=None):
    spec = gen.gen_corpus(rng, gen.Opts(
        ns=ns or rng.choice([False, 'declared', 'any']), igts=(0, n), tiers=(0, 3), items=(0, 3),
        maxlen=20, texts='xml', ids=rng.choice(['all', 'all', 'some'])))
    if rng.random() < .6:
        spec['ch'].append(gen.natural_igt(rng, 'nat', rng.randint(1, 3)))
    return spec


def generate(rng, i, tier):
    r = rng.random()
    if r < .42:
        return {'what': 'pure', 'spec': gen_spec(rng), 'seed': rng.randint(0, 10 ** 9),
                'ops': [rng.choice(sorted(OPS)) for _ in range(rng.randint(2, 8))]}
    if r < .65:
        return {'what': 'alias', 'spec': gen_spec(rng, ns='declared'),
                'seed': rng.randint(0, 10 ** 9)}
    n = rng.choice([2, 2, 3, 4])
    if r < .85:
        return {'what': 'duel', 'specs': [gen_spec(rng, 2) for _ in range(min(n, 3))],
                'op': rng.choice(sorted(DUEL)), 'cuts': 10 if tier == 'quick' else 30,
                'seed': rng.randint(0, 10 ** 9)}
    return {'what': 'threads', 'specs': [gen_spec(rng, 2) for _ in range(n)],
            'same': rng.random() < .2, 'gap': rng.choice([1, 2, 5, 20, 100]),
            'free': rng.random() < .2, 'seed': rng.randint(0, 10 ** 9)}


def run(case, mon):
    {'pure': pure, 'alias': alias, 'threads': threads, 'duel': duel}[case['what']](case, mon)


# ---------------------------------------------------------------- purity

def op_xml(xc, rng, tmp):
    from xigt.codecs import xigtxml
    return xigtxml.dumps(xc, encoding=rng.choice(['unicode', 'utf-8', 'utf-16', 'us-ascii']),
                         indent=rng.choice([2, None, 0, 4]))


def op_json(xc, rng, tmp):
    from xigt.codecs import xigtjson
    return xigtjson.dumps(xc, indent=rng.choice([2, None]))


def op_dict(xc, rng, tmp):
    from xigt.codecs import xigtjson
    return json.dumps(xigtjson.encode(xc))


def op_dump(xc, rng, tmp):
    from xigt.codecs import xigtjson, xigtxml
    path = os.path.join(tmp, 'f')
    (xigtxml if rng.random() < .5 else xigtjson).dump(path, xc)
    with open(path, 'rb') as f:
        return f.read()


def op_parts(xc, rng, tmp):
    from xigt.codecs import xigtxml, xigtjson
    out = []
    for igt in xc:
        out.append(xigtxml.encode_igt(igt))
        out.append(json.dumps(xigtjson.encode_igt(igt)))
        for t in igt:
            out.append(xigtxml.encode_tier(t))
            out += [xigtxml.encode_item(i) for i in t]
            out += [xigtxml.encode_metadata(m) for m in t.metadata]
    return out


def op_paths(xc, rng, tmp):
    from xigt import xigtpath as xp
    out = []
    for p in rng.sample(['//item', 'igt/tier/item/@id', '//tier[@type="words"]', '//*', '//meta/*',
                         'igt/metadata/meta/text()', '//item/..', '//item[@alignment]',
                         '(igt | metadata)', '//@x', '//item/text()', '/igt/tier/item/text()'], 3):
        if p != '//@x':
            out.append([describe(x) for x in xp.findall(xc, p)])
    return out


def op_values(xc, rng, tmp):
    out = []
    for igt in xc:
        for t in igt:
            for i in t:
                try:
                    out.append((i.value(), i.span(0, 1)))
                except Exception as e:
                    out.append(type(e).__name__)
                except RecursionError:
                    out.append('recursion')
    return out


def op_refs(xc, rng, tmp):
    from xigt import query, ref
    out = []
    for igt in xc:
        for x in list(igt) + [i for t in igt for i in t]:
            if x.id is None:
                continue
            out.append(sorted(ref.referents(igt, x.id).items()))
            out.append(sorted(ref.referrers(igt, x.id).items()))
            out.append(sorted((k, v) for k, v in x.referents().items() if v))
            out.append(sorted((k, v) for k, v in x.referrers().items() if v))
            out.append(sorted((k, v) for k, v in igt.referrers('no such id').items() if v))
        if all(t.id for t in igt):
            for t in igt:
                out.append([(a.id, b, c.id, [d.id for d in e])
                            for a, b, c, e in query.descendants(t, follow='all')])
                try:
                    out.append([(a.id, b, c.id, [d.id for d in e])
                                for a, b, c, e in query.ancestors(t)])
                except AttributeError:
                    out.append('dangling')
    return out


def op_lookup(xc, rng, tmp):
    out = [describe(m) for m in xc.get_meta('language') or []]
    for igt in xc:
        out += [describe(m) for m in igt.get_meta('comment', default=[])]
        out.append([t.id for t in igt.select(type='words')])
        for t in igt:
            out.append(t.get_attribute('tag', inherit=True))
            out.append(t.get_attribute('lang', namespace=gen.DC, inherit=True))
            out.append([describe(i) for i in t.select(text='dog')])
            out.append(sorted(t.nsmap.items()))
            out.append((t.alignment, t.content, t.segmentation))
            out.append(igt.get('nope', 'D'))
            out.append(igt.get_item('nope', 'D'))
    return out


def op_compare(xc, rng, tmp):
    return [xc == xc, xc != xc, [a == b for a in xc for b in xc], xc == 5, len(xc), bool(xc),
            [x in xc for x in list(xc)], [xc.index(x) for x in xc]]


def op_lists(xc, rng, tmp):
    """The lists one gets are one's own."""
    xc.igts.clear()
    for igt in xc:
        igt.tiers.reverse()
        for t in igt:
            t.items.append(None)
            for m in t.metadata:
                m.metas.clear()
    for m in xc.metadata:
        m.metas.append(1)
        for x in m:
            x.children.append(2)
    xc[:].clear()
    return len(xc)


OPS = {k[3:]: v for k, v in sorted(globals().items()) if k.startswith('op_')}


def describe(x):
    if x is None or isinstance(x, str):
        return x
    return (model.kind(x), x.id, x.type, getattr(x, 'name', None), sorted(x.attributes.items()))


def identities(obj):
    """Which objects the containers hold, and their own prefix maps."""
    r = [id(obj)]
    if model.kind(obj) in ('corpus', 'igt', 'tier'):
        r.append([identities(m) for m in obj.metadata])
    if model.kind(obj) != 'item':
        r.append([identities(x) for x in obj])
    return r


def state(xc):
    return model.snapshot(xc), identities(xc)


def pure(case, mon):
    rng = random.Random(case['seed'])
    spec = case['spec']
    mon.trivial = not spec['ch']
    xc = model.build(spec, rng)
    if rng.random() < .3:
        from xigt.codecs import xigtxml, xigtjson
        xc = xigtxml.loads(xigtxml.dumps(xc)) if rng.random() < .5 \
            else xigtjson.loads(xigtjson.dumps(xc))
    tmp = mon.scratch()
    before = state(xc)
    seeds = {}
    for op in case['ops'] + case['ops'][:2]:
        s = seeds.setdefault(op, rng.randint(0, 10 ** 9))
        r = [OPS[op](xc, random.Random(s), tmp) for _ in range(2)]
        require(r[0] == r[1], '{} gives something else the second time:\n{}\n{}', op,
                short(r[0], 1500), short(r[1], 1500))
        after = state(xc)
        d = model.diff(before[0], after[0])
        require(d is None, '{} changes the corpus: {}', op, d)
        require(before[1] == after[1], '{} replaces objects of the corpus', op)
        first = seeds.setdefault(('result', op), r[0])
        require(first == r[0], '{} gives something else after other operations:\n{}\n{}', op,
                short(first, 1500), short(r[0], 1500))
        mon.hit('pure operations')
        mon.state(op, len(spec['ch']))
    # a second corpus with the same content is not affected by the first
    other = model.build(spec, random.Random(case['seed']))
    d = model.diff(model.expected(spec), model.snapshot(other))
    require(d is None, 'a corpus built afterwards differs: {}', d)


# ---------------------------------------------------------------- aliasing

def spoil(obj):
    """Change everything about an object and all it contains."""
    for o in list(walk(obj)):
        o.attributes.clear()
        o.attributes['spoiled'] = 'x'
        o.nsmap['spoiled'] = 'urn:spoiled'
        if hasattr(o, 'text') and model.kind(o) != 'metadata':
            o.text = 'spoiled'
        o.type = 'spoiled'
    for o in list(walk(obj)):
        if model.kind(o) in ('corpus', 'igt', 'tier'):
            o.metadata.clear()
        if model.kind(o) != 'item':
            o.clear()


def walk(obj):
    yield obj
    if model.kind(obj) in ('corpus', 'igt', 'tier'):
        for m in obj.metadata:
            yield from walk(m)
    if model.kind(obj) != 'item':
        for x in obj:
            yield from walk(x)


def spoil_data(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil_data(v)
        x.clear()
        x['spoiled'] = 1
    elif isinstance(x, list):
        for v in x:
            spoil_data(v)
        x.clear()
        x.append('spoiled')


def spoil_results(xc):
    from xigt import ref, xigtpath
    for p in ('//item', 'igt/tier/item/@id', '//meta/*', '(igt | metadata)', '//*'):
        xigtpath.findall(xc, p).append('spoiled')
    for g in xc:
        for x in list(g) + [i for t in g for i in t]:
            for ra in ('alignment', 'content', 'segmentation'):
                e = x.attributes.get(ra)
                if e is not None:
                    for f in (ref.ids, ref.spans, ref.selections):
                        f(e).append('spoiled')
                    if ref.ids(e):
                        ref.dereference_all(x, ra).append('spoiled')
            if x.id is not None:
                for r in (ref.referents(g, x.id), ref.referrers(g, x.id), g.referents(x.id),
                          g.referrers(x.id)):
                    spoil_data(r)
        spoil_data(g.referrers('no such id'))


def alias(case, mon):
    import xigt
    from xigt.codecs import xigtjson, xigtxml
    rng = random.Random(case['seed'])
    spec = case['spec']
    mon.trivial = not spec['ch']
    xc = model.build(spec, rng)
    want = model.snapshot(xc)
    xml, js = xigtxml.dumps(xc), xigtjson.encode(xc)
    text = json.dumps(js)

    def intact(obj, what):
        d = model.diff(want, model.snapshot(obj))
        require(d is None, '{}: {}', what, d)
        mon.hit('aliasing probes')
    # the serialized data is independent of the corpus, and the reverse
    a, b = xigtjson.decode(js), xigtjson.decode(js)
    require(json.dumps(js) == text, 'decoding changes the JSON data')
    spoil(a)
    require(json.dumps(js) == text, 'changes to a decoded corpus reach the JSON data')
    intact(b, 'changes to one decoded corpus reach the other')
    intact(xc, 'changes to a decoded corpus reach its source')
    js2 = xigtjson.encode(b)
    spoil_data(js2)
    intact(b, 'changes to encoded data reach the corpus')
    spoil_data(js)
    intact(b, 'changes to the JSON data reach the decoded corpus')
    intact(xc, 'changes to the encoded data reach the corpus')
    c, d = xigtxml.loads(xml), xigtxml.loads(xml)
    snap = model.snapshot(d)
    spoil(c)
    e = model.diff(snap, model.snapshot(d))
    require(e is None, 'changes to a corpus read from XML reach another: {}', e)
    e = model.diff(snap, model.snapshot(xigtxml.loads(xml)))
    require(e is None, 'changes to a corpus read from XML reach those read later: {}', e)
    intact(xc, 'changes to a decoded corpus reach its source')
    # what queries give belongs to who asked, or at least to that corpus
    c = xigtxml.loads(xml)
    before = op_refs(xc, None, None), duel_exprs(xc, xml, js, random.Random(1)), \
        duel_path(xc, xml, js, random.Random(1))
    spoil_results(c)
    after = op_refs(xc, None, None), duel_exprs(xc, xml, js, random.Random(1)), \
        duel_path(xc, xml, js, random.Random(1))
    require(before == after, 'changes to the results of queries of one corpus reach another:'
            '\n{}\n{}', *firstdiff(before, after))
    mon.hit('aliasing probes')
    # one part of a corpus and the others
    parts = list(d)
    if len(parts) > 1:
        others = [model.snapshot(g) for g in parts[1:]]
        spoil(parts[0])
        for o, p in zip(others, parts[1:]):
            e = model.diff(o, model.snapshot(p))
            require(e is None, 'changes to an igt read from XML reach another: {}', e)
        mon.hit('aliasing probes')
    # constructor arguments
    attrs, ns, mds, kids = {'a': 'b'}, {'p': 'urn:p'}, [xigt.Metadata()], []
    for cls, kw in ((xigt.XigtCorpus, 'igts'), (xigt.Igt, 'tiers'), (xigt.Tier, 'items')):
        attrs, ns, mds = {'a': 'b'}, {'p': 'urn:p'}, [xigt.Metadata(type='t')]
        kids = [{'igts': xigt.Igt, 'tiers': xigt.Tier, 'items': xigt.Item}[kw](id='k')]
        o = cls(attributes=attrs, nsmap=ns, metadata=mds, **{kw: kids})
        attrs['x'] = 'y'
        ns['x'] = 'y'
        mds.clear()
        kids.clear()
        require(dict(o.attributes) == {'a': 'b'} and dict(o.nsmap) == {'p': 'urn:p'}
                and len(o.metadata) == 1 and len(o) == 1,
                'a {} shares its arguments', cls.__name__)
        o.attributes['z'] = '1'
        o.nsmap['z'] = '1'
        o.clear()
        o.metadata.clear()
        require('z' not in attrs and 'z' not in ns, 'a {} shares its arguments', cls.__name__)
    for cls in model.classes().values():
        args = ['n'] if cls.__name__ == 'MetaChild' else []
        o = cls(*args)
        o.attributes['q'] = 'r'
        o.nsmap['q'] = 'r'
        if hasattr(o, 'metadata'):
            o.metadata.append(xigt.Metadata())
        if hasattr(o, 'append'):
            o.append({'XigtCorpus': lambda: xigt.Igt(), 'Igt': lambda: xigt.Tier(),
                      'Tier': lambda: xigt.Item(), 'Metadata': lambda: xigt.Meta()}.get(
                          cls.__name__, lambda: xigt.MetaChild('x'))())
        p = cls(*args)
        require(not p.attributes and not p.nsmap and not (hasattr(p, 'metadata') and p.metadata)
                and not (hasattr(p, 'append') and len(p)),
                'new {} objects share state with earlier ones', cls.__name__)


# ---------------------------------------------------------------- threads

def task(spec, seed, tmp, name):
    """What one user does with one corpus; gives plain data."""
    from xigt.codecs import xigtjson, xigtxml
    rng = random.Random(seed)
    out = []
    xc = model.build(spec, rng)
    kinds = rng.sample(['xml', 'json', 'queries', 'lazy', 'file', 'xml'], 4)
    for k in kinds:
        if k == 'xml':
            s = xigtxml.dumps(xc, indent=rng.choice([2, None]))
            out.append(s)
            out.append(model.snapshot(xigtxml.loads(s)))
        elif k == 'json':
            s = xigtjson.dumps(xc)
            out.append(s)
            out.append(model.snapshot(xigtjson.loads(s)))
        elif k == 'queries':
            for op in rng.sample(['paths', 'values', 'refs', 'lookup', 'compare'], 3):
                out.append(OPS[op](xc, random.Random(rng.randint(0, 10 ** 9)), tmp))
        elif k == 'lazy':
            data = xigtxml.dumps(xc, encoding='utf-8')
            y = xigtxml.load(io.BytesIO(data), mode=rng.choice(['transient', 'incremental']))
            out.append([model.snapshot(g) for g in y])
        else:
            p = os.path.join(tmp, name)
            xigtxml.dump(p, xc)
            out.append(model.snapshot(xigtxml.load(p)))
    out.append(model.snapshot(xc))
    return out


def threads(case, mon):
    rng = random.Random(case['seed'])
    specs = case['specs']
    if case['same']:
        specs = [specs[0]] * len(specs)
    mon.trivial = not any(s['ch'] for s in specs)
    tmp = mon.scratch()
    seeds = [case['seed'] + k for k in range(len(specs))]
    tasks = [lambda k=k: task(specs[k], seeds[k], tmp, 'file%d' % k) for k in range(len(specs))]
    want = [t() for t in tasks]
    again = [t() for t in reversed(tasks)][::-1]
    for k in range(len(tasks)):
        require(want[k] == again[k], 'the results depend on what was done before:\n{}\n{}',
                *firstdiff(want[k], again[k]))
    mon.hit('any order', len(tasks))
    if case['free']:
        # real preemption, as often as the interpreter can
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        got = [None] * len(tasks)

        def body(k):
            try:
                got[k] = ('ok', [tasks[k]() for _ in range(2)][-1])
            except BaseException as e:
                got[k] = ('error', e)
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(tasks))]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(80)
        finally:
            sys.setswitchinterval(old)
        mon.hit('free threads', len(ts))
    else:
        il = Interleaver(rng, case['gap'])
        got = il.run(tasks)
        mon.hit('thread schedules')
        mon.hit('thread switches', il.switches)
        mon.state('schedule', il.trace)
    for k, (status, r) in enumerate(got):
        if status == 'error':
            raise Violation('run concurrently, thread %d fails: %s: %s' % (k, type(r).__name__, r))
        require(r == want[k], 'run concurrently, thread {} gives something else:\n{}\n{}', k,
                *firstdiff(want[k], r))


def duel_xml(xc, xml, js, rng):
    from xigt.codecs import xigtxml
    return xigtxml.dumps(xc)


def duel_read(xc, xml, js, rng):
    from xigt.codecs import xigtxml
    return model.snapshot(xigtxml.loads(xml))


def duel_lazy(xc, xml, js, rng):
    from xigt.codecs import xigtxml
    y = xigtxml.load(io.BytesIO(xml), mode=rng.choice(['transient', 'incremental']))
    return [model.snapshot(g) for g in y]


def duel_json(xc, xml, js, rng):
    from xigt.codecs import xigtjson
    return json.dumps(xigtjson.encode(xc))


def duel_decode(xc, xml, js, rng):
    from xigt.codecs import xigtjson
    return model.snapshot(xigtjson.loads(js))


def duel_path(xc, xml, js, rng):
    from xigt import xigtpath as xp
    out = []
    for p in rng.sample(['//item', 'igt/tier/item/@id', '//tier[@type="words"]', '//meta/*',
                         '//item/..', '(igt | metadata)', '/igt/tier/item/text()', '//*',
                         './/item[@alignment]', 'igt[tier/@id]'], 2):
        out.append([describe(x) for x in xp.iterfind(xc, p)])
        out.append(describe(xp.find(xc, p)))
    return out


def duel_exprs(xc, xml, js, rng):
    from xigt import ref
    out = []
    exprs = [e for g in xc for t in g for i in t for k, e in i.attributes.items()
             if k in ('alignment', 'content', 'segmentation')]
    for e in rng.sample(exprs, min(3, len(exprs))) + ['a1[0:1+2:3],b2', 'x y  z']:
        out.append([ref.expand(e), ref.compress(e), ref.ids(e), ref.spans(e), ref.selections(e)])
    return out


def duel_refresh(xc, xml, js, rng):
    out = []
    for g in xc:
        g.refresh_indices(tiers=True)
        for x in list(g) + [i for t in g for i in t]:
            if x.id is not None:
                out.append([sorted((k, v) for k, v in f.items() if v)
                            for f in (g.referents(x.id), g.referrers(x.id))])
    return out


DUEL = dict({k[5:]: v for k, v in sorted(globals().items()) if k.startswith('duel_')},
            **{k: lambda xc, xml, js, rng, k=k: OPS[k](xc, rng, None)
               for k in ('refs', 'values', 'lookup', 'compare', 'parts')})


def duel(case, mon):
    """The same operation of several threads, the first of which is interrupted by the others."""
    from xigt.codecs import xigtjson, xigtxml
    rng = random.Random(case['seed'])
    mon.trivial = not any(s['ch'] for s in case['specs'])
    mine = []
    for s in case['specs']:
        xc = model.build(s, rng)
        mine.append((xc, xigtxml.dumps(xc, encoding='utf-8'), xigtjson.dumps(xc),
                     rng.randint(0, 10 ** 9)))

    def task(k):
        xc, xml, js, seed = mine[k]
        return DUEL[case['op']](xc, xml, js, random.Random(seed))
    n = len(mine)
    want = [task(k) for k in range(n)]
    il = Interleaver(rng, 1, at=10 ** 9, record=True)
    r = il.run([lambda: task(0)])[0]
    require(r == ('ok', want[0]), 'in another thread, {} gives something else: {}', case['op'],
            short(r, 1500))
    where = {}
    for i, loc in enumerate(il.locations):
        where.setdefault(loc, []).append(i + 1)
    places = sorted(where)
    rng.shuffle(places)
    for loc in places[:case['cuts']]:
        il = Interleaver(rng, 1, at=rng.choice(where[loc]))
        got = il.run([lambda k=k: task(k) for k in range(n)])
        at = '{1} ({0}:{2})'.format(os.path.basename(loc[0]), *loc[1:])
        for k, (status, r) in enumerate(got):
            if status == 'error':
                raise Violation('thread 0 interrupted in %s: %s of thread %d fails: %s: %s'
                                % (at, case['op'], k, type(r).__name__, r))
            require(r == want[k], 'thread 0 interrupted in {}: {} of thread {} gives something '
                    'else:\n{}\n{}', at, case['op'], k, *firstdiff(want[k], r))
        for k in range(n):
            r = task(k)
            require(r == want[k], 'after threads were interrupted in {}, {} gives something '
                    'else:\n{}\n{}', at, case['op'], *firstdiff(want[k], r))
        mon.hit('duels')
        mon.state('duel', case['op'], loc)


def firstdiff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return short(x, 1500), short(y, 1500)
    return short(a), short(b)
