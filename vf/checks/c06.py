"""C06: transient mode is lazy and keeps bounded memory."""
import gc
import io
import os
import random
import tracemalloc
import weakref

from .. import gen, model, xmlgen
from ..engine import Violation, require

ID = 'C06'
RULE = ('a case is a long document (or generator), a pattern of consumption (drop at once, keep a '
        'sliding window, look inside, abandon midway) and a way of delivering bytes; all cases '
        'are non-trivial')
CASES = {'quick': 160, 'thorough': 2400}
MIN_EVENTS = {'igts delivered': 15000, 'igts seen released': 8000, 'memory samples': 8,
              'lazy generator': 1000, 'piped': 1000,
              'reads from text': 2000, 'reads from bytes': 4000}
LOOKAHEAD = 200000     # bytes; the parser reads blocks of 16 KiB
PER_IGT = 120          # bytes of traced memory an IGT may leave behind


def generate(rng, i, tier):
    return {'kind': rng.choice(['xml', 'xml', 'text', 'pipe', 'generator', 'memory', 'file',
                                'textfile', 'incremental']),
            'n': rng.choice([300, 600, 900]), 'seed': rng.randint(0, 10 ** 9),
            'window': rng.choice([0, 0, 1, 3, 10, 50]),
            'look': rng.choice(['no', 'no', 'query', 'value', 'meta', 'refs', 'dump', 'items'])}


def make(rng, n):
    base = []
    for j in range(8):
        g = gen.natural_igt(rng, 'x', n=rng.randint(1, 5))
        g['md'] = gen.gen_mds(rng, gen.Opts(texts='xml', maxlen=200), {}, .4)
        base.append(g)
    return {'k': 'corpus', 'id': 'c', 'attrs': {'x': '1'}, 'nsmap': {'dc': gen.DC},
            'md': gen.gen_mds(rng, gen.Opts(texts='xml', maxlen=200), {}, .5),
            'ch': [dict(base[j % 8], id='i%d' % j) for j in range(n)]}


def look(igt, how):
    from xigt import xigtpath
    from xigt.codecs import xigtxml
    if how == 'query':
        xigtpath.findall(igt, 'tier/item')
        xigtpath.find(igt, '..')
    elif how == 'value':
        [i.value() for t in igt for i in t]
    elif how == 'meta':
        igt.get_meta('language')
        igt.get_attribute('x', inherit=True)
    elif how == 'refs':
        [i.referents() for t in igt for i in t]
        [i.referrers() for t in igt for i in t]
    elif how == 'items':
        igt.get_item('w1')
        igt.get_any('w')
    elif how == 'dump':
        xigtxml.encode_igt(igt) if hasattr(xigtxml, 'encode_igt') else repr(igt)


class Alive:
    def __init__(self):
        self.refs = []
        self.most = 0

    def add(self, igt):
        self.refs.append(weakref.ref(igt))

    def count(self):
        gc.collect()
        self.refs = [r for r in self.refs if r() is not None]
        self.most = max(self.most, len(self.refs))
        return len(self.refs)


def run(case, mon):
    from xigt import XigtCorpus
    from xigt.codecs import xigtxml
    rng = random.Random(case['seed'])
    kind, n, window = case['kind'], case['n'], case['window']
    if kind == 'memory':
        return memory(case, mon, rng)
    spec = make(rng, n)
    made = [0]
    stream = None
    if kind == 'generator':
        def gener():
            for g in spec['ch']:
                made[0] += 1
                yield model.build(g)
        xc = XigtCorpus(igts=gener(), mode=rng.choice(['transient', 'transient', 'incremental']))
        require(made[0] == 0, 'creating a lazy corpus consumes {} IGTs', made[0])
    else:
        doc, ends = xmlgen.document(spec, rng, plain=True)
        if kind == 'pipe':
            cuts = [0] + ends[:-1] + [len(doc)]
            stream = Pipe([doc[a:b] for a, b in zip(cuts, cuts[1:])])
        elif kind == 'file':
            path = os.path.join(mon.scratch(), 'big.xml')
            with open(path, 'wb') as f:
                f.write(doc)
            stream = Counting(open(path, 'rb'))
        elif kind == 'textfile':
            path = os.path.join(mon.scratch(), 'big.xml')
            with open(path, 'wb') as f:
                f.write(doc)
            stream = io.TextIOWrapper(CountingRaw(path), encoding='utf-8')
        elif kind == 'text':
            stream = Text(doc.decode('utf-8'))
        else:
            stream = xmlgen.Stream(doc, rng.choice([None, [8192], [100, 5000], [65536]]))
        xc = xigtxml.load(stream, mode='incremental' if kind == 'incremental' else 'transient')
    transient = xc.mode == 'transient'
    alive = Alive()
    keep = []
    k = 0
    stop = n if rng.random() < .8 else rng.randint(1, n)
    for igt in xc:
        k += 1
        alive.add(igt)
        require(igt.id == 'i%d' % (k - 1), 'IGT {} has id {}', k - 1, igt.id)
        look(igt, case['look'])
        if kind == 'generator':
            require(made[0] <= k + 1, '{} IGTs have been made, {} were delivered', made[0], k)
            mon.hit('lazy generator')
        elif kind == 'pipe':
            require(stream.reads <= k + 2, 'IGT {} is delivered after {} pieces (of one IGT each) '
                    'have been read', k, stream.reads)
            mon.hit('piped')
        else:
            pos = stream.buffer.raw.pos if kind == 'textfile' else stream.pos
            require(pos <= ends[k - 1] + LOOKAHEAD,
                    'IGT {} ends at byte {} but is delivered after {} of {} bytes', k,
                    ends[k - 1], pos, len(doc))
            mon.hit('reads from ' + ('text' if kind in ('text', 'textfile') else 'bytes'))
        if window:
            keep.append(igt)
            keep = keep[-window:]
        del igt
        mon.hit('igts delivered')
        if k % 60 == 0 or k == n:
            c = alive.count()
            if transient:
                require(c <= window + 3, 'after {} IGTs of which {} are kept by the caller, {} '
                        'are alive', k, window, c)
                mon.hit('igts seen released', k - c if k == stop else 0)
            else:
                require(c == k, 'after {} IGTs in incremental mode, {} are alive', k, c)
            mon.state(kind, transient, c, window)
        if k >= stop:
            break
    require(k == stop, '{} IGTs delivered, not {}', k, stop)
    if kind == 'file':
        stream.f.close()
    elif kind == 'textfile':
        stream.close()


class Pipe(io.RawIOBase):
    """Every read delivers what has been written by then: one IGT."""

    def __init__(self, pieces):
        self.pieces, self.reads = pieces, 0

    def readable(self):
        return True

    def read(self, n=-1):
        if self.reads < len(self.pieces):
            p = self.pieces[self.reads]
            if n is not None and 0 <= n < len(p):
                self.pieces[self.reads] = p[n:]
                return p[:n]
            self.reads += 1
            return p
        return b''


class Text(io.StringIO):
    encoding = 'utf-8'
    pos = 0

    def read(self, n=-1):
        r = super().read(n)
        self.pos += len(r)      # characters: at most as many as bytes
        return r


class Raw(io.FileIO):
    pos = 0

    def readinto(self, b):
        n = super().readinto(b)
        self.pos += n
        return n


def CountingRaw(path):
    return io.BufferedReader(Raw(path))


class Counting:
    def __init__(self, f):
        self.f, self.pos = f, 0

    def read(self, n=-1):
        r = self.f.read(n)
        self.pos += len(r)
        return r


def memory(case, mon, rng):
    """Traced memory must not grow with the number of IGTs read."""
    from xigt.codecs import xigtxml
    n = 1200
    spec = make(rng, n)
    doc, ends = xmlgen.document(spec, rng, plain=True)
    stream = xmlgen.Stream(doc)
    tracemalloc.start()
    try:
        xc = xigtxml.load(stream, mode='transient')
        samples = {}
        k = 0
        for igt in xc:
            k += 1
            look(igt, case['look'])
            del igt
            if k % 5 == 0 and (200 <= k < 300 or 1000 <= k < 1100):
                # the least, as the parser works ahead within a block
                gc.collect()
                m = tracemalloc.get_traced_memory()[0]
                w = k // 300
                samples[w] = min(samples.get(w, m), m)
                mon.hit('memory samples')
    finally:
        tracemalloc.stop()
    grown = samples[3] - samples[0]
    require(grown <= 800 * PER_IGT, 'reading 800 more IGTs in transient mode keeps {} more bytes',
            grown)
    mon.state('bytes per igt', grown // 800 // 10)
