"""C04: truncated, malformed or failing input never becomes a corpus."""
import io
import json
import os
import random

from .. import gen, model, xmlgen, xmloracle
from ..engine import Inconclusive, Violation, require, short

ID = 'C04'
RULE = ('a case is one document damaged in one family of ways (cut off at every byte of it or at '
        'sampled ones, bytes changed, another root, a failing stream), read in all three modes; '
        'non-trivial: at least one damaged variant was not well formed or failed')
CASES = {'quick': 600, 'thorough': 20000}
MIN_EVENTS = {'damaged documents': 20000, 'stream errors': 1000, 'igts before failure': 3000,
              'wrong root': 150, 'json cut': 1000, 'json damaged': 1500, 'still well formed': 50}
LEVEL = 'fault_enumeration'
ASSUMPTIONS = ['expat decides what is well formed']
MODES = ('full', 'incremental', 'transient')


class Broken(OSError):
    pass


def generate(rng, i, tier):
    kind = rng.choice(['cut', 'cut', 'cut', 'mutate', 'mutate', 'stream', 'stream', 'root',
                       'json', 'big'])
    big = kind == 'big' or (kind == 'stream' and rng.random() < .4)
    if big:
        spec = {'k': 'corpus', 'attrs': {}, 'nsmap': {'dc': gen.DC},
                'ch': [gen.natural_igt(rng, 'i%d' % j) for j in range(rng.randint(30, 60))]}
    else:
        spec = gen.gen_corpus(rng, gen.Opts(ns=rng.choice([False, 'declared']), texts='xml',
                                            igts=(0, 3), tiers=(0, 3), items=(0, 3), maxlen=60))
    return {'kind': kind, 'spec': spec, 'seed': rng.randint(0, 10 ** 9),
            'plain': rng.random() < .4}


def deliver(data, mode, how, mon, stream=None):
    """Read and iterate to the end: (igt snapshots delivered, error or None)"""
    from xigt.codecs import xigtxml
    got = []
    try:
        if stream is not None:
            xc = xigtxml.load(stream, mode=mode)
        elif how == 'bytes' and mode == 'full':
            xc = xigtxml.loads(data)
        elif how == 'path':
            path = os.path.join(mon.scratch(), 'cut.xml')
            with open(path, 'wb') as f:
                f.write(data)
            xc = xigtxml.load(path, mode=mode)
        else:
            xc = xigtxml.load(io.BytesIO(data), mode=mode)
        for igt in xc:
            got.append(model.snapshot(igt))
    except Exception as e:
        return got, e
    return got, None


def must_fail(data, want, mode, how, mon, what, stream=None):
    got, err = deliver(data, mode, how, mon, stream)
    if err is None:
        raise Violation('%s is read in %s mode as a corpus with %d IGTs:\n%s'
                        % (what, mode, len(got), short(data[-300:], 700)))
    check_prefix(got, want, mode, what)
    mon.hit('igts before failure', len(got))
    mon.hit('damaged documents')
    mon.state(mode, type(err).__name__, len(got), what.split()[0])
    return err


def check_prefix(got, want, mode, what):
    require(len(got) <= len(want), '{} ({} mode): {} IGTs delivered of {}', what, mode,
            len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        d = model.diff(w, g)
        require(d is None, '{} ({} mode): IGT {} delivered before the failure is damaged: {}',
                what, mode, k, d)


def judge(data, want, mode, how, mon, what):
    """A document that may or may not be well formed."""
    try:
        xc = xmloracle.read(data)
    except (xmloracle.Malformed, xmloracle.WrongRoot):
        must_fail(data, want, mode, how, mon, what)
        return
    got, err = deliver(data, mode, how, mon)
    mon.hit('still well formed')
    if err is None:
        require(len(got) == len(xc['ch']), '{} ({} mode): {} IGTs of {}', what, mode, len(got),
                len(xc['ch']))
        check_prefix(got, xc['ch'], mode, what)


def run(case, mon):
    rng = random.Random(case['seed'])
    kind = case['kind']
    if kind == 'json':
        return run_json(case, mon, rng)
    data, ends = xmlgen.document(case['spec'], rng, plain=case['plain'],
                                 encoding=rng.choice(['utf-8', 'utf-8', 'utf-16']) if
                                 not case['plain'] else 'utf-8')
    want = xmloracle.read(data)['ch']
    hows = ['bytes', 'bytesio', 'path']
    if kind in ('cut', 'big'):
        n = len(data)
        if kind == 'cut' and n <= 1500:
            cuts = range(n)
            mon.hit('documents cut at every byte')
        else:
            cuts = sorted(set([rng.randint(0, n - 1) for _ in range(40 if kind == 'cut' else 12)]
                              + [n - 1, n - 2, n - 10] + rng.sample(ends, min(3, len(ends)))
                              + [p for p in (16384, 32768, 65536) if p < n]))
        for c in cuts:
            mode = MODES[c % 3]
            judge(data[:c], want, mode, hows[c % 7 % 3], mon, 'cut off at byte %d of %d' % (c, n))
    elif kind == 'mutate':
        for _ in range(60):
            d = mutate(data, rng)
            m = rng.choice(MODES)
            try:
                xmloracle.read(d)
            except xmloracle.WrongRoot:
                must_fail(d, [], m, 'bytes', mon, 'mutated document')
            except xmloracle.Malformed:
                got, err = deliver(d, m, rng.choice(hows), mon)
                require(err is not None,
                        'a malformed document is read in {} mode as a corpus with {} IGTs:\n{}',
                        m, len(got), short(d, 3000))
                mon.hit('damaged documents')
    elif kind == 'root':
        run_root(case, mon, rng, data)
    elif kind == 'stream':
        n = len(data)
        offs = sorted(set([0, 1, n - 1, n] + [rng.randint(0, n) for _ in range(12)] + ends[:2]))
        for off in offs:
            for mode in MODES:
                exc = rng.choice([Broken('cable cut'), OSError(5, 'I/O error'),
                                  RuntimeError('worker died'), EOFError('gone'),
                                  ValueError('I/O operation on closed file'),
                                  TimeoutError('slow')])
                s = xmlgen.Stream(data, rng.choice([None, [1000], [17, 256], [4096]]), off, exc)
                err = must_fail(data, want, mode, None, mon,
                                'stream failing at byte %d of %d' % (off, n), s)
                e = err
                while e is not None and e is not exc:
                    e = e.__cause__ or e.__context__
                require(err is exc, 'the error of the stream ({!r}) is not what the caller gets: '
                        '{!r}', exc, err)
                mon.hit('stream errors')


def run_root(case, mon, rng, data):
    body = data.decode('utf-8' if data[:2] not in (b'\xff\xfe', b'\xfe\xff') else 'utf-16')
    for root in ('igt', 'xigt', 'corpus', 'Xigt-corpus', 'xigt-corpusx', 'xigt_corpus', 'tier',
                 'html', 'metadata', 'x:xigt-corpus'):
        d = body.replace('<xigt-corpus', '<' + root).replace('</xigt-corpus', '</' + root)
        if ':' in root:
            d = d.replace('<x:xigt-corpus', '<x:xigt-corpus xmlns:x="urn:other"', 1)
        d = d.encode('utf-16' if 'UTF-16' in body[:60] else 'utf-8')
        try:
            xmloracle.read(d)
        except (xmloracle.Malformed, xmloracle.WrongRoot):
            for mode in MODES:
                got, err = deliver(d, mode, 'bytes', mon)
                require(err is not None and not got,
                        'a document with root <{}> is read in {} mode', root, mode)
                mon.hit('wrong root')
    for d in (b'', b' ', b'\n', b'<!-- -->', b'<?xml version="1.0"?>', b'{}', b'null',
              b'<xigt-corpus/><xigt-corpus/>', b'<a><xigt-corpus/></a>', b'</xigt-corpus>',
              b'<xigt-corpus/>x', b'\x00', b'<xigt-corpus a="1" a="2"/>',
              b'<a><xigt-corpus><igt/></xigt-corpus></a>', b'<xigt-corpus><igt></xigt-corpus>',
              b'<xigt-corpus><igt/></xigt-corpus></xigt-corpus>',
              b'<xigt-corpus><igt/></xigt-corpus><igt/>', b'<xigt-corpus>&nope;</xigt-corpus>',
              b'<xigt-corpus><x:igt/></xigt-corpus>', b'<igt><tier/></igt>'):
        for mode in MODES:
            got, err = deliver(d, mode, 'bytes', mon)
            require(err is not None, '{} is read in {} mode', d, mode)
            mon.hit('wrong root')


def mutate(data, rng):
    d = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        i = rng.randrange(len(d))
        r = rng.random()
        if r < .3:
            del d[i]
        elif r < .5:
            d[i] = rng.choice(b'<>&"\'/=x \x00\xff')
        elif r < .65:
            del d[i:i + rng.randint(1, 40)]
        elif r < .8:
            d[i:i] = rng.choice([b'<', b'>', b'&', b'</igt>', b'<igt>', b'"', b'\xff', b'</item>',
                                 b'<!--', b']]>', b'<igt/>', b'</xigt-corpus>'])
        else:
            j = rng.randrange(len(d))
            i, j = sorted((i, j))
            d[i:i] = d[i:min(j, i + 60)]
        if not d:
            d = bytearray(b'<')
    return bytes(d)


def run_json(case, mon, rng):
    from xigt.codecs import xigtjson
    s = xigtjson.dumps(model.build(case['spec']), indent=rng.choice([None, 2]))
    cuts = range(len(s)) if len(s) < 600 else [rng.randint(0, len(s) - 1) for _ in range(60)]
    for c in cuts:
        d = s[:c]
        try:
            json.loads(d)
        except ValueError:
            pass
        else:
            continue
        for f in (lambda: xigtjson.loads(d), lambda: xigtjson.load(io.StringIO(d))):
            try:
                xc = f()
            except Exception:
                mon.hit('json cut')
            else:
                raise Violation('JSON cut off at %d of %d is read as a corpus with %d IGTs'
                                % (c, len(s), len(xc)))
    # something wrong in it, after it, or another kind of thing altogether
    bad = [s + x for x in ('x', '{}', s, ']', '}', ',', ' null', '\n//', '\x00', ' {"igts": []}')]
    bad += ['x' + s, ',' + s, '[' + s, '[]' + s, '', ' ', 'null', 'true', '1', '[]', '""',
            '[%s]' % s, '[{"igts": []}]', json.dumps(s), '{"igts": 1}', '{"igts": [1]}',
            '{"igts": [{"tiers": [[]]}]}', '{"igts": {"a": {}}}', '{"igts": "abc"}']
    for _ in range(25):
        d = list(s)
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(len(d))
            r = rng.random()
            if r < .4:
                del d[k]
            elif r < .7:
                d[k] = rng.choice('{}[],:"\\x \n\x01\'')
            else:
                d[k:k] = rng.choice(['{', '}', '[', ']', ',', '"', 'x', ':', '//', '/**/', 'null'])
            if not d:
                d = ['{']
        d = ''.join(d)
        try:
            x = json.loads(d)
            if isinstance(x, dict):
                continue
        except ValueError:
            bad.append(d)
    path = os.path.join(mon.scratch(), 'bad.json')
    for d in bad:
        with open(path, 'w', encoding='utf-8') as f:
            f.write(d)
        mode = rng.choice(MODES)
        for f in (lambda: xigtjson.loads(d), lambda: list(xigtjson.load(io.StringIO(d), mode=mode)),
                  lambda: list(xigtjson.load(path, mode=mode))):
            try:
                xc = f()
            except Exception:
                mon.hit('json damaged')
            else:
                raise Violation('damaged JSON is read as a corpus with %d IGTs: %s'
                                % (len(xc), short(d, 1500)))
    for exc in (Broken('x'), RuntimeError('y')):
        s_ = xmlgen.Stream(s.encode(), [10], rng.randint(0, len(s)), exc)
        try:
            xigtjson.load(s_)
        except Exception as e:
            require(e is exc, 'another error reaches the caller: {!r}', e)
            mon.hit('stream errors')
        else:
            raise Violation('a failing stream is read as a corpus')
