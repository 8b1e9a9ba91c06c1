"""C28: A failed save leaves the existing file as it was."""
import io
import os
import pathlib
import random

from .. import cli, gen, model, xmlgen, xmloracle
from ..engine import Violation, require, short

ID = 'C28'
RULE = ('a case is a corpus, a destination with some previous content, a format, and perhaps a fault: '
        'something that cannot be serialized at some position, a source that fails while it is read, '
        'or an argument that is no corpus; the destination is read back byte by byte; non-trivial: '
        'there was a previous content')
CASES = {'quick': 8000, 'thorough': 250000}
MIN_EVENTS = {'failed saves': 2300, 'saves': 850, 'previous content': 2300, 'no file before': 850,
              'xml': 1600, 'json': 1600, 'not a corpus': 240, 'failing source': 450, 'same file': 60,
              'handles': 1500, 'fault positions': 1150, 'late faults': 450, 'surrogates': 120,
              'cycles': 220, 'unknown encoding': 100}
ASSUMPTIONS = ['The destination can be written to: errors of the file system are not considered.']


class Odd:
    def __repr__(self):
        return 'odd'


def generate(rng, i, tier):
    spec = gen.gen_corpus(rng, gen.Opts(ns=rng.choice([False, 'declared']), igts=(0, 4), tiers=(0, 3),
                                        items=(0, 4), maxlen=20, texts='xml', ids='all'))
    if rng.random() < .4:
        spec['ch'].append(gen.natural_igt(rng, 'nat', 2))
    if rng.random() < .03:
        spec['ch'] += [gen.natural_igt(rng, 'n%d' % k, 3) for k in range(200)]
    if not any(spec['md']) and rng.random() < .5:
        spec['md'] = gen.gen_mds(rng, gen.Opts(ns=False, texts='xml', maxlen=20), {}, 1)
    fault = rng.choice([None, None, None, 'odd', 'odd', 'odd', 'odd', 'argument', 'source', 'source', 'cycle',
                        'surrogate', 'encoding', 'deep'])
    if fault == 'deep' and rng.random() < .8:
        fault = 'odd'
    return {'spec': spec, 'fault': fault, 'format': rng.choice(['xml', 'json']),
            'dest': rng.choice(['path', 'path', 'path', 'pathlib', 'text', 'binary', 'bytesio',
                                'stringio']),
            'previous': rng.choice([None, '', 'short', 'long', 'corpus', 'corpus', 'binary']),
            'late': rng.random() < .4, 'same': rng.random() < .3,
            'indent': rng.choice([2, 2, None, 0, 4]),
            'encoding': rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-16', 'us-ascii', 'unicode']),
            'seed': rng.randint(0, 10 ** 9)}


def inject(rng, xc, fmt, late):
    """Put something that cannot be serialized somewhere; say where"""
    spots = []
    for obj in nodes(xc):
        k = model.kind(obj)
        for f in ('text', 'attr', 'type', 'key'):
            if f == 'text' and k not in ('item', 'meta', 'mc'):
                continue
            if f == 'text' and k != 'item' and len(obj) > 0 and rng.random() < .5:
                continue
            if f == 'type' and k == 'mc':
                continue
            if f == 'key' and rng.random() < .8:
                continue
            spots.append((obj, f))
    obj, f = spots[-rng.randint(1, min(3, len(spots)))] if late else rng.choice(spots)
    bad = rng.choice([Odd(), b'bytes', 3j, Odd] + ([5, 1.5, True] if fmt == 'xml' else [{1, 2}]))
    if f == 'text':
        obj.text = bad
    elif f == 'attr':
        obj.attributes[rng.choice(['zzz', 'a', 'n'])] = bad
    elif f == 'key':
        obj.attributes[rng.choice([Odd(), (1, 2), b'x'])] = 'value'
    elif f == 'type':
        obj.type = bad
    return '%s of %s is %r' % (f, model.kind(obj), bad)


def nodes(obj):
    yield obj
    k = model.kind(obj)
    if k in ('corpus', 'igt', 'tier'):
        for m in obj.metadata:
            yield from nodes(m)
    if k != 'item':
        for x in obj:
            yield from nodes(x)


def run(case, mon):
    import xigt
    from xigt.codecs import xigtjson, xigtxml
    rng = random.Random(case['seed'])
    spec, fmt, fault = case['spec'], case['format'], case['fault']
    codec = {'xml': xigtxml, 'json': xigtjson}[fmt]
    tmp = mon.scratch()
    path = os.path.join(tmp, 'dest')
    enc = case['encoding'] if fmt == 'xml' else 'utf-8'
    if fmt == 'xml' and case['dest'] == 'stringio':
        enc = 'unicode'
    elif enc == 'unicode' and case['dest'] in ('binary', 'bytesio', 'text'):
        enc = 'utf-8'
    if fmt == 'json' and case['dest'] in ('binary', 'bytesio'):
        case['dest'] = 'text'
    if enc == 'us-ascii' and not all(x.isascii() for n, _ in gen.walk(spec) for x in
                                     [*n['attrs'], *(n.get('nsmap') or ()), n.get('name') or '']):
        enc = 'utf-8'    # names cannot be escaped
    # the corpus
    xc = model.build(spec, rng)
    what = fault
    source = None
    if fault == 'odd':
        what = inject(rng, xc, fmt, case['late'])
        mon.hit('fault positions')
        if case['late']:
            mon.hit('late faults')
    elif fault == 'argument':
        mon.hit('not a corpus')
        cands = [None, [], {}, 'text', Odd(), xigt.Igt(id='i'), list(xc), iter(xc), xigt.XigtCorpus,
                 spec, xigt.Metadata(), xigt.Tier(id='t'), path]
        xc = rng.choice(cands)
        what = 'argument %s' % short(xc, 80)
        try:
            s = codec.dumps(xc)
        except Exception:
            pass
        else:
            raise Violation('%s is written as %s' % (what, short(s)))
    elif fault == 'source':
        mon.hit('failing source')
        how = rng.choice(['truncated', 'malformed', 'generator'])
        what = 'source ' + how
        spec['ch'] += [gen.natural_igt(rng, 'src%d' % k, 2) for k in range(3)]
        data, ends = xmlgen.document(spec, rng, plain=True)
        if how == 'generator':
            igts = list(model.build(spec, rng))

            def gen_igts():
                yield from igts[:-1]
                raise RuntimeError('source')
            xc = xigt.XigtCorpus(igts=gen_igts(), mode='transient')
        else:
            at = data.rindex(b'<igt')
            data = data[:at + 3] if how == 'truncated' else data[:at] + b'</x>' + data[at:]
            source = os.path.join(tmp, 'source')
            with open(source, 'wb') as f:
                f.write(data)
            if case['same'] and case['dest'] in ('path', 'pathlib'):
                os.rename(source, path)
                source = path
            xc = xigtxml.load(source, mode=rng.choice(['transient', 'incremental']))
    elif fault == 'cycle':
        mon.hit('cycles')
        c = xigt.MetaChild('a')
        d = xigt.MetaChild('b', children=[c])
        c.append(d)
        m = xigt.Metadata(metas=[xigt.Meta(children=[d])])
        rng.choice([x for x in nodes(xc) if model.kind(x) in ('corpus', 'igt', 'tier')]).metadata.append(m)
    elif fault == 'deep':
        c = xigt.MetaChild('a')
        for _ in range(3000):
            c = xigt.MetaChild('a', children=[c])
        xc.metadata.append(xigt.Metadata(metas=[xigt.Meta(children=[c])]))
    elif fault == 'surrogate':
        fault = None
        if fmt == 'json':    # XML cannot represent it
            mon.hit('surrogates')
            xc.append(xigt.Igt(id='surr', tiers=[xigt.Tier(id='t', items=[
                xigt.Item(id='i', text=rng.choice(['\ud800', 'a\udfffb']))])]))
    elif fault == 'encoding':
        if fmt == 'json' or case['dest'] == 'stringio':
            fault = None
        else:
            enc = 'no-such-encoding'
            mon.hit('unknown encoding')
    elif fault is None and case['same'] and case['dest'] in ('path', 'pathlib') and spec['ch']:
        # saving to where it is being loaded from
        mon.hit('same file')
        xigtxml.dump(path, xc)
        xc = xigtxml.load(path, mode=rng.choice(['transient', 'incremental']))
        source = path
        spec['nsmap'] = None
    # the destination
    prev = case['previous']
    old = {None: None, '': b'', 'short': b'x', 'long': b'previous content \xc3\xa9\n' * 20000,
           'binary': bytes(range(256)) * 8}.get(prev, b'')
    if prev == 'corpus':
        s = xigtxml.dumps(model.build({'k': 'corpus', 'id': None, 'attrs': {}, 'md': [], 'ch': [
            gen.natural_igt(rng, 'old%d' % k, 4) for k in range(rng.choice([1, 3, 30]))]}, rng))
        old = s.encode('utf-8')
    dest = case['dest']
    memory = dest in ('bytesio', 'stringio')
    if source == path:
        with open(path, 'rb') as f:
            old = f.read()
    elif not memory:
        if old is None and dest in ('text', 'binary'):
            old = b''
        if old is not None:
            with open(path, 'wb') as f:
                f.write(old)
    mon.hit('previous content' if old else 'no file before')
    mon.trivial = not old
    mon.hit(fmt)
    before = cli.tree(tmp)
    kw = {'encoding': enc} if enc != 'utf-8' or rng.random() < .5 else {}
    if case['indent'] != 2:
        kw['indent'] = case['indent']
    handle = None
    if dest == 'path':
        target = path
    elif dest == 'pathlib':
        target = pathlib.Path(path)
    else:
        mon.hit('handles')
        if dest == 'bytesio':
            handle = io.BytesIO(old or b'')
        elif dest == 'stringio':
            handle = io.StringIO((old or b'').decode('latin-1'))
        elif dest == 'text':
            handle = open(path, 'r+', encoding='utf-8', newline='')
        else:
            handle = open(path, 'r+b')
        target = handle
    error = None
    try:
        try:
            codec.dump(target, xc, **kw)
        except (Exception, RecursionError) as e:
            error = e
        if memory:
            now = handle.getvalue()
            was = old or b''
            if dest == 'stringio':
                was = was.decode('latin-1')
    finally:
        if handle is not None and not memory:
            handle.close()
    after = cli.tree(tmp)
    mon.state(fmt, fault, dest, prev, what if fault == 'odd' else None)
    if error is not None:
        mon.hit('failed saves')
        require(fault is not None, 'the corpus is not saved: {}: {}', type(error).__name__, error)
        require(after == before, 'when saving fails ({}: {}), the file changes from {} to {}', what,
                type(error).__name__, short(before, 200), short(after, 200))
        if memory:
            require(now == was, 'when saving fails ({}), the file changes from {} to {}', what,
                    short(was), short(now))
        return
    require(fault is None, 'saving succeeds although {} cannot be saved', what)
    mon.hit('saves')
    require(set(after) | {'dest'} == set(before) | {'dest'}, 'files appear or vanish: {}', sorted(after))
    if memory:
        data = now
    else:
        data = after['dest']
    if handle is not None:
        # what was there before remains after the end of what was written
        if not memory:
            was = old
        want = codec.dumps(xc, **dict(kw, **({} if enc != 'utf-8' else {'encoding': (
            'unicode' if isinstance(data, str) or fmt == 'json' else 'utf-8')})))
        if isinstance(data, bytes) and isinstance(want, str):
            want = want.encode('utf-8')
        n = len(want)
        require(data[:n] == want, 'the file begins with {} instead of {}', short(data[:n], 600),
                short(want, 600))
        require(data[n:] == was[n:], 'the rest of the file is {} instead of {}', short(data[n:]),
                short(was[n:]))
        data = data[:n]
    check(data, fmt, spec, mon, case['fault'] == 'surrogate' and fmt == 'json')


def check(data, fmt, spec, mon, surrogate):
    from xigt.codecs import xigtjson, xigtxml
    if surrogate:
        spec['ch'].append({'k': 'igt', 'id': 'surr', 'attrs': {}, 'md': [], 'ch': []})
    if fmt == 'xml':
        try:
            seen = xmloracle.read(data if isinstance(data, bytes) else data.encode('utf-8'))
        except xmloracle.Malformed as e:
            raise Violation('the file is not well formed: %s' % e)
        d = model.diff(model.expected(spec, xml=True), seen, nsmap='ignore')
        require(d is None, 'the file holds something else: {}', d)
    else:
        if isinstance(data, bytes):
            data = data.decode('utf-8')
        xc = xigtjson.loads(data)
        if surrogate:
            require(len(xc) == len(spec['ch']), 'the file holds {} igts', len(xc))
            return
        d = model.diff(model.expected(spec), model.snapshot(xc), nsmap='ignore')
        require(d is None, 'the file holds something else: {}', d)
