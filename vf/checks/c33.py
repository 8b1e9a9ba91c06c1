"""C33: nothing is left behind: no open files, no objects, no growing memory, no
changed process."""
import atexit
import builtins
import gc
import io
import json
import locale
import logging
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import tracemalloc
import types
import warnings
import weakref
from contextlib import contextmanager

from .. import cli, gen, model, xmlgen
from ..engine import REPO, VERIF, Violation, require, short

ID = 'C33'
RULE = ('a case is a program of operations on fresh material, some failing, after each of which '
        'the open files, directories, threads and settings of the process are compared with those '
        'before, and after which all objects have to be gone; or one operation that is repeated '
        'with fresh material while the memory it leaves allocated is traced; non-trivial: a '
        'corpus has been read, changed, queried or converted')
CASE_TIMEOUT = 300
CASES = {'quick': 1000, 'thorough': 12000}
MIN_EVENTS = {'operations': 2000, 'fails': 500, 'files seen open': 100, 'objects seen to die': 50000,
              'repetitions': 25000, 'callers files': 400, 'commands': 300, 'imports': 120, 'done': 2000, 'members seen to die': 2000}
ASSUMPTIONS = ['Memory that grows within the interpreter and its library counts only if it is '
               'retained by every repetition, however many there are.']
LEAK = 5          # bytes for each repetition, when there are very many


def setup():
    p = os.path.join(VERIF, 'stubs')
    if p not in sys.path:
        sys.path.insert(0, p)
    import delphin.itsdb                      # noqa: F401
    import xigt.codecs.xigtjson               # noqa: F401
    import xigt.codecs.xigtxml                # noqa: F401
    import xigt.exporters.itsdb               # noqa: F401
    import xigt.exporters.latex               # noqa: F401
    import xigt.importers.odin                # noqa: F401
    import xigt.importers.toolbox             # noqa: F401
    import xigt.query                         # noqa: F401
    import xigt.scripts.xigt_export           # noqa: F401
    import xigt.scripts.xigt_import           # noqa: F401
    import xigt.scripts.xigt_partition        # noqa: F401
    import xigt.scripts.xigt_query            # noqa: F401
    import xigt.scripts.xigt_sort             # noqa: F401
    import xigt.scripts.xigt_validate         # noqa: F401
    import xigt.xigtpath                      # noqa: F401


# ----------------------------------------------------------------- material

def fresh_igt(k, j):
    """A small IGT in which every name and text is new."""
    t = '%dx%d' % (k, j)
    words = ['inu%s' % t, 'ga%s' % t, 'hasiru%s' % t][:1 + (k + j) % 3]
    phrase = ' '.join(words)
    ws, ms, gs, pos = [], [], [], 0
    for n, w in enumerate(words):
        ws.append(('w%s-%d' % (t, n), 'p%s-0[%d:%d]' % (t, pos, pos + len(w))))
        ms.append(('m%s-%d' % (t, n), 'w%s-%d' % (t, n)))
        gs.append(('g%s-%d' % (t, n), 'm%s-%d' % (t, n), 'dog%s' % t))
        pos += len(w) + 1

    def tier(i, typ, attrs, ch):
        return {'k': 'tier', 'id': i + t, 'type': typ, 'attrs': dict(attrs, **{'a%s' % t: 'v' + t}),
                'ch': ch}

    def item(i, attrs, text=None):
        return {'k': 'item', 'id': i, 'attrs': attrs, 'text': text}

    return {'k': 'igt', 'id': 'i' + t, 'attrs': {'doc-id': 'd%d' % (k % 50)}, 'ch': [
        tier('p', 'phrases', {}, [item('p%s-0' % t, {}, phrase)]),
        tier('w', 'words', {'segmentation': 'p' + t}, [item(i, {'segmentation': e}) for i, e in ws]),
        tier('m', 'morphemes', {'segmentation': 'w' + t},
             [item(i, {'segmentation': e}) for i, e in ms]),
        tier('g', 'glosses', {'alignment': 'm' + t},
             [item(i, {'alignment': e}, x) for i, e, x in gs]),
        tier('t', 'type' + t, {'alignment': 'p' + t},
             [item('t%s-0' % t, {'alignment': 'p%s-0' % t}, 'the dog %s' % t)])],
        'md': [{'k': 'metadata', 'attrs': {}, 'id': 'md' + t, 'ch': [
            {'k': 'meta', 'id': None, 'type': 'meta' + t, 'attrs': {'a' + t: t}, 'text': None, 'ch': [
                {'k': 'mc', 'ns': None, 'name': 'n' + t, 'attrs': {'b' + t: t}, 'text': 'deep' + t, 'ch': []}]}]}]}


class Source:
    """Fresh material for the k-th repetition of an operation."""

    def __init__(self, d, k, rng=None, kept=None):
        self.d, self.k, self.rng = d, k, rng
        self.kept = {} if kept is None else kept     # for all repetitions
        self.outs = set()
        self.watched = []
        self.died = 0
        self.held = []
        self.fails = self.opened = self.owned = 0
        self.command = None
        self.done = False

    def spec(self, n=1):
        if self.rng and self.rng.random() < .4:
            return gen.gen_corpus(self.rng, gen.Opts(ns='declared', xml=True, hostile=False,
                                                     igts=(n, n + 3), texts='xml', maxlen=40))
        return {'k': 'corpus', 'id': 'c%d' % self.k, 'nsmap': {'n%d' % self.k: 'http://u/%d' % self.k},
                'attrs': {'{http://u/%d}z' % self.k: 'q%d' % self.k}, 'md': [],
                'ch': [fresh_igt(self.k, j) for j in range(n)]}

    def natural(self, n=1):
        return {'k': 'corpus', 'id': 'c%d' % self.k, 'attrs': {}, 'md': [],
                'ch': [fresh_igt(self.k, j) for j in range(n)]}

    def corpus(self, n=1):
        c = model.build(self.spec(n), None, 'ctor')
        self.watch(c)
        return c

    def doc(self, n=1, spec=None):
        return xmlgen.document(spec or self.spec(n), random.Random(self.k), plain=True)[0]

    def out(self, name):
        name = '%d.%s' % (self.k, name)
        self.outs.add(name)
        return os.path.join(self.d, name)

    def file(self, data, name='in.xml'):
        p = self.out(name)
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def watch(self, *objs):
        """All of these have to be gone in the end, and all that they contain."""
        for o in objs:
            self.watched.append((weakref.ref(o), type(o).__name__))
            if type(o).__name__ == 'XigtCorpus':
                for g in o if o.mode == 'full' else ():
                    self.watch(g)
            for x in getattr(o, 'metadata', None) or []:
                self.watch(x)
            if type(o).__name__ in ('Igt', 'Tier', 'Metadata'):
                for x in o:
                    self.watch(x)
            elif type(o).__name__ in ('Meta', 'MetaChild'):
                for x in o.children:
                    self.watch(x)

    def dead(self, refs, what):
        """These have to be gone by now, although what contained them has not."""
        gc.collect()
        for r in refs:
            require(r() is None, '{}: {} is kept, though nothing should refer to it', what,
                    type(r()).__name__)
        self.died += len(refs)

    def fail(self, f, *args, **kw):
        try:
            f(*args, **kw)
        except Exception:
            self.fails += 1

    @contextmanager
    def callers(self, f):
        """A file that the caller has opened stays open."""
        try:
            yield f
        finally:
            closed = f.closed
            f.close()
            require(not closed, 'a file that the caller opened has been closed')
            self.owned += 1


def fds():
    r = {}
    for name in os.listdir('/proc/self/fd'):
        try:
            r[int(name)] = os.readlink('/proc/self/fd/' + name)
        except OSError:
            pass                     # the one by which they are listed
    return r


def opened(before):
    return sorted(v for k, v in fds().items() if before.get(k) != v)


# --------------------------------------------------------------- operations

OPS = {}


def op(*variants):
    def add(f):
        for v in variants or ('',):
            OPS[(f.__name__.replace('_', ' ') + ' ' + v).strip()] = (f, v)
        return f
    return add


MODES = ('full', 'incremental', 'transient')


def _codec():
    from xigt.codecs import xigtxml
    return xigtxml


def _use(s, xc, n=None):
    """Read a corpus, to the end or not."""
    k = 0
    for g in xc:
        s.watch(g)
        k += 1
        if n is not None and k >= n:
            break
    return k


@op('full', 'incremental', 'transient')
def load_path(s, v):
    p = s.file(s.doc(2))
    before = fds()
    xc = _codec().load(p, mode=v)
    if len(fds()) > len(before):
        s.opened += 1
    s.watch(xc)
    _use(s, xc)
    gc.collect()
    require(opened(before) == [], 'after a corpus has been read to its end (mode {}), files are '
            'still open: {}', v, opened(before))
    s.held.append(xc)


@op('incremental', 'transient')
def load_path_abandoned(s, v):
    p = s.file(s.doc(4) + b' ' * 200000)
    before = fds()
    xc = _codec().load(p, mode=v)
    if len(fds()) > len(before):
        s.opened += 1
    s.watch(xc)
    if s.k % 3:
        _use(s, xc, s.k % 3)


@op('incremental', 'transient')
def load_path_iterator_abandoned(s, v):
    xc = _codec().load(s.file(s.doc(4) + b' ' * 200000), mode=v)
    s.watch(xc)
    it = iter(xc)
    if s.k % 2:
        s.watch(next(it))
    it2 = iter(xc)
    del xc
    next(it2, None)


@op('get', 'len', 'index', 'query', 'dump', 'eq')
def load_path_then(s, v):
    from xigt import xigtpath
    p = s.file(s.doc(3))
    before = fds()
    xc = _codec().load(p, mode='incremental')
    s.watch(xc)
    if v == 'get':
        xc.get('none%d' % s.k)
    elif v == 'len':
        _use(s, xc)
        len(xc)
    elif v == 'index':
        s.watch(*[xc[0]] if len(xc) else [])
    elif v == 'query':
        xigtpath.findall(xc, 'igt/tier')
    elif v == 'dump':
        _codec().dumps(xc)
    else:
        xc == _codec().load(p)
    del xc
    gc.collect()
    require(opened(before) == [], 'after a corpus that was loaded from a path is gone, files are '
            'still open: {}', opened(before))


@op(*MODES)
def load_binary(s, v):
    p = s.file(s.doc(2))
    with s.callers(open(p, 'rb')) as f:
        xc = _codec().load(f, mode=v)
        s.watch(xc)
        _use(s, xc, None if s.k % 3 else 1)


@op(*MODES)
def load_text(s, v):
    p = s.file(s.doc(2))
    with s.callers(open(p, encoding='utf-8')) as f:
        xc = _codec().load(f, mode=v)
        s.watch(xc)
        _use(s, xc, None if s.k % 3 else 1)


@op('bytes', 'str')
def loads(s, v):
    d = s.doc(2)
    xc = _codec().loads(d if v == 'bytes' else d.decode())
    s.watch(xc)
    s.held.append(xc)


def _spoil(d, k):
    how = k % 7
    if how == 0:
        return d[:len(d) * 2 // 3]
    if how == 1:
        return d.replace(b'xigt-corpus', b'other')
    if how == 2:
        return d.rstrip() + b'<x/>'
    if how == 3:
        return d.replace(b'</tier>', b'</reit>', 1)
    if how == 4:
        return d.replace(b'<igt', b'<igt id="1', 1)
    if how == 5:
        return d[:40] + bytes([0xff, 0xfe]) + d[40:]
    i = d.find(b'<igt')
    return d[:i] + b'<igt id="q%d"/><igt id="q%d"/>' % (k, k) + d[i:]


@op(*MODES)
def broken_path(s, v):
    p = s.file(_spoil(s.doc(3), s.k))
    before = fds()

    def f():
        xc = _codec().load(p, mode=v)
        s.watch(xc)
        _use(s, xc)
    s.fail(f)
    gc.collect()
    require(opened(before) == [], 'after a corpus that cannot be read (mode {}), files are still '
            'open: {}', v, opened(before))


@op(*MODES)
def broken_file(s, v):
    p = s.file(_spoil(s.doc(3), s.k))
    with s.callers(open(p, 'rb')) as f:
        s.fail(lambda: _use(s, _codec().load(f, mode=v)))


@op('bytes', 'str')
def broken_string(s, v):
    d = _spoil(s.doc(2), s.k)
    s.fail(_codec().loads, d if v == 'bytes' else d.decode('utf-8', 'replace'))


@op()
def missing_path(s, v):
    s.fail(_codec().load, os.path.join(s.d, 'missing%d' % s.k))
    s.fail(_codec().load, s.d)
    s.fail(_codec().dump, os.path.join(s.d, 'missing%d' % s.k, 'x.xml'), s.corpus())


@op('path', 'binary', 'text', 'unicode', 'string', 'bytes')
def dump(s, v):
    c = s.corpus()
    x = _codec()
    if v == 'path':
        p = s.out('out.xml')
        x.dump(p, c)
        with open(p, 'rb') as f:
            require(f.read().rstrip().endswith(b'>'), 'dump() has not written everything when it returns')
    elif v == 'binary':
        with s.callers(open(s.out('out.xml'), 'wb')) as f:
            x.dump(f, c)
            f.write(b'\n')
    elif v == 'text':
        with s.callers(open(s.out('out.xml'), 'w', encoding='utf-8')) as f:
            x.dump(f, c)
            f.write('\n')
    elif v == 'unicode':
        with s.callers(io.StringIO()) as f:
            x.dump(f, c, encoding='unicode')
            f.write('\n')
    elif v == 'string':
        x.dumps(c)
    else:
        x.dumps(c, encoding='utf-8')


class Bad(io.RawIOBase):
    def writable(self):
        return True

    def write(self, b):
        raise OSError('full')


@op('path', 'file', 'string', 'full', 'other')
def failing_dump(s, v):
    c = s.corpus()
    x = _codec()
    if v != 'full':
        c[0].attributes['bad'] = [None, 3, object()][s.k % 3]
        s.watch(c[0])
    if v == 'path':
        p = s.out('out.xml')
        with open(p, 'w') as f:
            f.write('old')
        before = fds()
        s.fail(x.dump, p, c)
        gc.collect()
        require(opened(before) == [], 'after a failed save, files are still open: {}', opened(before))
    elif v == 'file':
        with s.callers(open(s.out('out.xml'), 'wb')) as f:
            s.fail(x.dump, f, c)
    elif v == 'full':
        with s.callers(Bad()) as f:
            s.fail(x.dump, f, c)
    elif v == 'string':
        s.fail(x.dumps, c)
    else:
        s.fail(x.dump, s.out('out.xml'), 'no corpus %d' % s.k)
        s.outs.discard('%d.out.xml' % s.k)


@op('path', 'file', 'string', 'failing path', 'failing file', 'broken', 'missing')
def json_codec(s, v):
    from xigt.codecs import xigtjson as x
    c = s.corpus()
    if v == 'path':
        p = s.out('out.json')
        x.dump(p, c)
        for m in ('full',):
            c2 = x.load(p, mode=m)
            s.watch(c2)
    elif v == 'file':
        with s.callers(open(s.out('out.json'), 'w+')) as f:
            x.dump(f, c)
            f.flush()
            f.seek(0)
            s.watch(x.load(f))
    elif v == 'string':
        s.watch(x.loads(x.dumps(c)))
    elif v.startswith('failing'):
        c[0].attributes['bad'] = object()
        if v.endswith('path'):
            p = s.out('out.json')
            with open(p, 'w') as f:
                f.write('old')
            s.fail(x.dump, p, c)
        else:
            with s.callers(open(s.out('out.json'), 'w')) as f:
                s.fail(x.dump, f, c)
    elif v == 'broken':
        d = x.dumps(c)
        p = s.out('out.json')
        with open(p, 'w') as f:
            f.write(d[:len(d) // 2] if s.k % 2 else d.replace('"id"', '"name"').replace('igts', 'tiers'))
        s.fail(x.load, p)
        s.fail(x.loads, d[:len(d) // 2])
        with s.callers(open(p)) as f:
            s.fail(x.load, f)
    else:
        s.fail(x.load, os.path.join(s.d, 'missing%d' % s.k))
        s.fail(x.dump, os.path.join(s.d, 'missing%d' % s.k, 'x'), c)


@op('parts')
def encode(s, v):
    c = s.corpus()
    x = _codec()
    for g in c:
        s.fail(x.encode_igt, g)
        for t in g:
            s.fail(x.encode_tier, t)
            for i in t:
                s.fail(x.encode_item, i)
        for md in g.metadata:
            s.fail(x.encode_metadata, md)
    s.fails = 0


@op('simple', 'predicates', 'ids', 'values', 'up', 'unions', 'broken', 'find')
def path(s, v):
    from xigt import xigtpath
    c = s.corpus()
    k = s.k
    ps = {'simple': ['igt/tier/item', 'igt/tier/@a%dx0' % k, '//n%dx0' % k, '//item/@b%d' % k],
          'predicates': ['igt[@id="i%dx0"]/tier' % k, 'igt/tier[@type="type%dx0"]/item/text()' % k,
                         'igt/tier[item/text()="t%d"]' % k],
          'ids': ['igt/item[@id="w%dx0-0"]' % k, 'igt/tier/item/referent()', '//item/referrer()',
                  'igt/tier/item/referrer("alignment%d")' % k],
          'values': ['//item/value()', '//item[value()="inu%dx0"]' % k],
          'up': ['igt/tier/item/..', '//tier/../metadata/meta[@type="meta%dx0"]' % k, '/.'],
          'unions': ['igt/(tier | metadata)/@a%d' % k, 'igt/(tier[@id="w%dx0"] | tier/item)' % k],
          'broken': ['igt/tier[%d' % k, 'igt/%d$' % k, 'igt/tier/nofunc%d()' % k, 'igt//'],
          'find': ['igt/tier[@id="w%dx0"]/item' % k, '//item']}[v]
    for p in ps:
        if v == 'find':
            xigtpath.find(c, p)
        elif v == 'broken':
            s.fail(xigtpath.findall, c, p)
        else:
            s.fail(xigtpath.findall, c, p)
            s.fail(xigtpath.findall, c[0], p)
            s.fails = 0


@op('tokens', 'spans', 'resolve', 'broken', 'delimited', 'rewrite')
def references(s, v):
    from xigt import ref
    k = s.k
    e = 'a%d[0:2]+b%d,c%d[1:2,3:4]' % (k, k, k)
    if v == 'tokens':
        list(ref.ids(e))
        ref.selections(e)
    elif v == 'spans':
        ref.spans(e)
    elif v == 'resolve':
        c = s.corpus()
        for g in c:
            for t in g:
                for i in t:
                    s.fail(i.value), s.fail(i.get_content)
                    s.fail(ref.resolve, t, 'w%dx0-0[0:1]' % k)
                    s.fail(ref.dereference, i, 'alignment')
        s.fails = 0
    elif v == 'broken':
        c = s.corpus()
        s.fail(ref.resolve, c[0], 'nothing%d[0:2]' % k)
        s.fail(ref.ids, '[%d' % k)
        s.fail(ref.selections, ' %d' % k)
    elif v == 'delimited':
        ref.selections(e, keep_delimiters=True)
        ref.selections(e)
    else:
        ref.compress(e)
        ref.expand(e)
        ref.delimiters


@op('lookups', 'attributes', 'paths', 'references', 'metadata', 'edits', 'members', 'renames',
    'dump', 'compare', 'indices', 'resolve', 'iterate', 'rejected')
def kept(s, v):
    """A corpus that lives on does not grow by being asked, nor by changes that are undone."""
    import xigt
    from xigt import query, ref, xigtpath
    from xigt.codecs import xigtjson
    if 'c' not in s.kept:
        s.kept['c'] = model.build({'k': 'corpus', 'id': 'c', 'nsmap': {'n': 'http://u/n'}, 'attrs': {},
                                   'md': [], 'ch': [fresh_igt(0, j) for j in range(2)]}, None, 'ctor')
    c, k = s.kept['c'], s.k
    g = c[k % 2]
    t = g[k % len(g)]
    i = t[0]
    name = 'name%d' % k
    if v == 'lookups':
        for x in (c, g, t):
            x.get(name), x.get(name, 'd%d' % k), name in x
            s.fail(lambda: x[name]), s.fail(lambda: x[1000 + k]), s.fail(x.index, i)
            x.get(x[0].id), x[x[0].id], x[0:1]
            x.select(id=name), x.select(type=name)
        g.get_item(name), g.get_any(name, 'd%d' % k)
    elif v == 'attributes':
        for x in (c, g, t, i):
            x.get_attribute(name), x.get_attribute(name, default='d%d' % k, inherit=True)
            x.get_attribute(name, namespace='http://u/%d' % k)
            s.fail(x.get_attribute, name + ':x')
            x.nsmap
    elif v == 'paths':
        for p in ('//item[@%s]', 'igt/tier[@id="%s"]', '//%s', 'igt/metadata/meta[@type="%s"]/text()',
                  '//item/@%s', 'igt[@id="%s"]/tier/item/value()', '//item[text()="%s"]/referrer()'):
            xigtpath.findall(c, p % name)
            s.fail(xigtpath.find, g, p % name)
    elif v == 'references':
        for x in (g, t, i):
            s.fail(x.referents, name) if x is g else x.referents([name])
            s.fail(x.referrers, name) if x is g else x.referrers([name])
        s.fail(ref.referrers, g, name), s.fail(ref.referents, g, name)
        g.referrers(i.id, refattrs=(name,)), g.referents(t.id), g.referrers(t.id)
        list(query.descendants(t)), list(query.descendants(t, refattrs=(name, 'segmentation')))
        list(query.ancestors(i)), list(query.ancestors(t, refattrs=(name,)))
    elif v == 'metadata':
        for x in (c, g, t):
            s.fail(x.get_meta, name), s.fail(x.get_meta, name, default='d%d' % k)
            s.fail(x.get_meta, name, conditions=[lambda m: m.text == name], inherit=False)
    elif v == 'edits':
        for x in (c, g, t, i):
            x.attributes[name] = name
            x.get_attribute(name, inherit=True)
            del x.attributes[name]
            old, x.type = x.type, name
            x.type = old
        old, i.text = i.text, name
        i.text = old
        old, i.attributes = i.attributes, {name: name}
        i.attributes = old
        old, c.nsmap = c.nsmap, {name: 'http://u/' + name}
        c.nsmap = old
    elif v == 'members':
        for x, y in ((t, xigt.Item(id=name, text=name)), (g, xigt.Tier(id=name, type=name)),
                     (c, xigt.Igt(id=name))):
            x.append(y)
            x[name]
            x.remove(y)
            x.insert(0, y)
            del x[0]
        g.metadata.append(xigt.Metadata(id=name, metas=[xigt.Meta(id=name, text=name)]))
        g.metadata.pop() if hasattr(g.metadata, 'pop') else g.metadata.remove(g.metadata[-1])
        g.refresh_indices() if hasattr(g, 'refresh_indices') else g.refresh_index()
    elif v == 'renames':
        new = xigt.Tier(id='renamed', type='x', items=[xigt.Item(id='renamed0')])
        g.append(new)
        new[0].id = name + 'a'
        new.id = name
        for x in (new, g):
            x.refresh_index()
        g.refresh_indices()
        g.remove(new)
        g.refresh_indices()
    elif v == 'dump':
        _codec().dumps(c), _codec().dumps(c, encoding='utf-8', indent=k % 5)
        xigtjson.dumps(c), _codec().encode_igt(g)
    elif v == 'compare':
        c == name, g == t, t == i, c == c, g != c[1 - k % 2]
        xigt.Item(id=name) in t
        s.fail(t.index, xigt.Item(id=name))
    elif v == 'indices':
        g.refresh_indices(), g.refresh_index(), g.sort_tiers()
        t.sort(key=lambda x: x.id)
    elif v == 'resolve':
        for x in t:
            x.value(), x.span(0, 1), x.get_content()
            s.fail(ref.resolve, t, name), s.fail(ref.resolve, t, x.id + '[0:%d]' % k)
            s.fail(ref.dereference, x, name), s.fail(ref.dereference, x, 'alignment')
    elif v == 'iterate':
        it = iter(c)
        next(it)
        list(c), list(c.igts), list(zip(c, g)), len(c), repr(g), str(t)
    else:
        s.fail(t.append, xigt.Item(id=i.id, text=name)), s.fail(g.append, xigt.Tier(id=t.id))
        s.fail(g.extend, [xigt.Tier(id=name), name]), s.fail(c.append, name)
        s.fail(t.insert, 0, xigt.Tier(id=name)), s.fail(t.remove, xigt.Item(id=name))
        s.fail(t.__setitem__, 0, name), s.fail(setattr, i, 'id', '1' + name)
    s.fails = 0


@op('ancestors', 'descendants', 'referents', 'indices', 'sort', 'select')
def queries(s, v):
    from xigt import query
    c = s.corpus()
    for g in c:
        for t in g:
            if v == 'ancestors':
                s.fail(lambda: list(query.ancestors(t)))
                for i in t:
                    s.fail(lambda: list(query.ancestors(i)))
            elif v == 'descendants':
                s.fail(lambda: list(query.descendants(t)))
                for i in t:
                    s.fail(lambda: list(query.descendants(i, follow='first')))
            elif v == 'referents':
                for i in t:
                    i.referents(), i.referrers()
            elif v == 'indices':
                g.get_item('w%dx0-0' % s.k), g.get_any('none%d' % s.k), g.get('no%d' % s.k)
                g.referents('w%dx0-0' % s.k), g.referrers('w%dx0-0' % s.k)
            elif v == 'select':
                list(g.select(type='type%dx0' % s.k)), list(g.select(id='x%d' % s.k))
                list(t.select(alignment='y%d' % s.k))
        if v == 'sort':
            s.fail(g.sort_tiers, ('segmentation', 'alignment', 'content'))
    s.fails = 0


@op('attributes', 'metadata', 'equality', 'text', 'prefixes')
def lookups(s, v):
    c = s.corpus()
    for g in c:
        for t in g:
            for i in t:
                if v == 'attributes':
                    i.get_attribute('a%dx0' % s.k, inherit=True)
                    i.get_attribute('b%d' % s.k, default='d%d' % s.k)
                    i.get_attribute('z', namespace='http://u/%d' % s.k, inherit=True)
                    s.fail(i.get_attribute, 'n%d:z' % s.k, inherit=True)
                elif v == 'metadata':
                    s.fail(t.get_meta, 'meta%dx0' % s.k)
                    s.fail(t.get_meta, 'none%d' % s.k, default='d')
                    s.fail(g.get_meta, 'meta%dx0' % s.k, conditions=[lambda m: m.text == str(s.k)])
                elif v == 'text':
                    s.fail(repr, i), i.text, i.content
                else:
                    s.fail(i.get_attribute, 'n%d:a' % s.k)
    if v == 'equality':
        d = s.corpus()
        c == d, c != d, len(c) and len(d) and c[0] == d[0]
    s.fails = 0


@op('pop', 'remove', 'replace', 'clear', 'slices', 'rejected', 'assign', 'sort', 'metadata', 'text')
def container(s, v):
    """Members that have been taken out of a corpus that lives on are gone."""
    import xigt
    c = s.corpus(2)
    s.held.append(c)
    k = s.k
    for box, make in ((c, lambda n: xigt.Igt(id='new%d-%d' % (k, n))),
                      (c[0], lambda n: xigt.Tier(id='new%d-%d' % (k, n), type='t%d' % k)),
                      (c[0][0] if len(c[0]) else None,
                       lambda n: xigt.Item(id='new%d-%d' % (k, n), text='x%d' % k))):
        if box is None:
            continue
        new = [make(n) for n in range(4)]
        new[0].attributes['alignment'] = 'new%d-1' % k
        refs = [weakref.ref(x) for x in new]

        def look():
            """Use what may keep members"""
            box.get('new%d-0' % k), 'new%d-1' % k in box, list(box)
            if type(box).__name__ == 'Igt':
                box.get_any('new%d-2' % k), box.referrers('new%d-1' % k)
                for t in box:
                    s.fail(t.referents), s.fail(t.referrers)
            elif type(box).__name__ == 'Tier':
                if box.igt is not None:
                    box.igt.get_item('new%d-0' % k), box.igt.referrers('new%d-1' % k)
                for i in box:
                    s.fail(i.value), s.fail(i.referents), s.fail(i.referrers)
            s.fails = 0

        if v == 'pop':
            box.extend(new)
            look()
            del new
            for _ in range(4):
                box.pop()
        elif v == 'remove':
            for x in new:
                box.append(x)
            look()
            for x in new:
                box.remove(x)
            del x, new
        elif v == 'replace':
            box.append(make(9))
            box[-1] = new[0]
            box[-1] = new[1]
            look()
            box[len(box) - 1] = new[2]
            box[-1] = new[3]
            box[-1] = make(8)
            del new
        elif v == 'clear':
            s.watch(box)
            box.clear()
            box.extend(new)
            look()
            del new
            box.clear()
        elif v == 'slices':
            box.extend(new)
            look()
            del new
            del box[-2:]
            s.fail(box.__setitem__, slice(-2, None), [make(7)])
            del box[-2:]
            while len(box):
                del box[0]
        elif v == 'rejected':
            box.extend(new)
            other = [make(n) for n in range(4)]        # the same ids again
            refs = [weakref.ref(x) for x in other]
            s.fail(box.append, other[0])
            s.fail(box.extend, other)
            s.fail(box.insert, 0, other[1])
            s.fail(box.__setitem__, -1, other[2])
            s.fail(box.append, 'text%d' % k)
            look()
            del other, new
        elif v == 'assign':
            name = {'XigtCorpus': 'igts', 'Igt': 'tiers', 'Tier': 'items'}[type(box).__name__]
            setattr(box, name, new)
            look()
            del new
            setattr(box, name, [make(6)])
        elif v == 'sort':
            box.extend(new)
            box.sort(key=lambda x: x.id or '', reverse=True)
            look()
            del new
            while len(box):
                box.pop(0)
        elif v == 'metadata':
            ms = [xigt.Metadata(id='md%d-%d' % (k, n),
                                metas=[xigt.Meta(type='m%d' % k, text='t')]) for n in range(3)]
            refs = [weakref.ref(m) for m in ms] + [weakref.ref(m[0]) for m in ms]
            box.metadata = ms
            s.fail(box.get_meta, 'm%d' % k)
            s.fails = 0
            del ms
            box.metadata = []
        else:
            refs = []
            for x in new:
                x.attributes['q%d' % k] = str(k)
                x.type = 'q%d' % k
        if 'x' in locals():
            del x
        look_ = look
        del look, look_
        s.dead(refs, 'after %s, in a corpus that is still used' % v)
        s.members = True


def _toolbox(k, n):
    return ''.join('\\ref r%d-%d\n\\t inu%d ga\n\\m inu%d ga\n\\g dog NOM\n\\f The dog %d\n\n'
                   % (k, j, k, k, k) for j in range(n)).encode()


def _odin(k, n):
    return ''.join(json.dumps({'igt_id': 'b%d-%d' % (k, j), 'doc_id': str(k), 'line_range': '1 2',
                               'line_types': 'L G T', 'language': 'korean%d' % k, 'iso-639-3': 'kor',
                               'lines': [{'tag': 'L', 'line': '1', 'content': 'inu%d' % k}]}) + '\n'
                   for j in range(n)).encode()


@op('latex', 'itsdb', 'latex failing', 'itsdb failing', 'latex file')
def export(s, v):
    from xigt.exporters import itsdb, latex
    import delphin.itsdb as stub
    c = model.build(s.natural(2), None, 'ctor')
    s.watch(c)
    fmt = v.split()[0]
    x = {'latex': latex, 'itsdb': itsdb}[fmt]
    out = s.out('out')
    cfg = {}
    if fmt == 'itsdb':
        cfg = {'relations': s.file(b'item:\n', 'relations'), 'cells': [['i-input', 'str(igt.id)']]}
        # (the interpreter keeps the names in the code that it compiles)
    if v == 'latex file':
        p = s.file(s.doc(spec=s.natural(3)))
        with s.callers(open(p)) as f:
            x.xigt_export(_codec().load(f, mode='transient'), out)
    elif v.endswith('failing'):
        c[1][1][0].attributes['alignment'] = 'w[7:'
        c[1][0].id, c[1][0][0].id
        s.fail(x.xigt_export, c, os.path.join(s.d, 'missing%d' % s.k, 'x')
               if s.k % 2 or fmt == 'itsdb' else out, dict(cfg, cells=[['i-input', '1/0']]))
        s.outs.add('missing%d' % s.k)
    else:
        x.xigt_export(c, out, cfg)
    del stub.calls[:]


@op('toolbox', 'odin', 'odin directory', 'toolbox failing', 'odin failing')
def importing(s, v):
    from xigt.importers import odin, toolbox
    fmt = v.split()[0]
    out = s.out('out')
    x = {'toolbox': toolbox, 'odin': odin}[fmt]
    data = (_toolbox if fmt == 'toolbox' else _odin)(s.k, 3)
    if v.endswith('failing'):
        data = data.replace(b'\\g dog NOM', b'\\g \xff\xfe') if s.k % 2 else data
        if fmt == 'odin':
            data = data.replace(b'"lines"', b'"enil"')
        p = s.file(data, 'in.txt')
        s.fail(x.xigt_import, p, out if s.k % 3 else os.path.join(s.d, 'missing%d' % s.k, 'x'))
    elif v.endswith('directory'):
        d = s.out('in')
        os.mkdir(d)
        for n in range(2):
            with open(os.path.join(d, 'f%d.txt' % n), 'wb') as f:
                f.write(data)
        x.xigt_import(d, out, {'input_file_suffix': '.txt'})
    else:
        x.xigt_import(s.file(data, 'in.txt'), out)


@op('sort', 'sort in place', 'sort deps', 'partition', 'query', 'validate', 'export', 'import toolbox',
    'import odin', 'broken sort', 'broken partition', 'broken query', 'broken validate',
    'broken export', 'usage')
def command(s, v):
    d = s.doc(spec=s.natural(2))
    if v.startswith('broken'):
        d = _spoil(d, s.k)
    p = s.file(d)
    out = os.path.join(s.d, '%d.out' % s.k)
    k = s.k
    if 'export' in v or 'import' in v or 'partition' in v:
        s.out('out')
    if v in ('sort', 'broken sort'):
        a = ['sort', '--igt-key', '@doc-id', '--tier-key', '@a%d' % k, '--item-key', 'text()', p]
    elif v == 'sort in place':
        a = ['sort', '--in-place', '--igt-key', '@id', '--tier-key', '@type', p]
    elif v == 'sort deps':
        a = ['sort', '--tier-deps', 'segmentation,alignment,x%d' % k, p]
    elif v.endswith('partition'):
        a = ['partition', '--key-path', 'tier/item/text()', out, p]
    elif v.endswith('query'):
        a = ['query', '-f', '//item/@id', '-c', '//item[@id="x%d"]' % k, '-t', 'igt', './/tier/@type',
             '-u', '//item/text()', '-d', 'about %d {match}' % k, p]
    elif v.endswith('validate'):
        a = ['validate', '-vvv', p]
    elif v.endswith('export'):
        a = ['export', '-i', p, '-o', out]
    elif v == 'import toolbox':
        a = ['import', '-i', s.file(_toolbox(k, 2), 'in.txt'), '-o', out, '-c',
             s.file(b'{"record_markers": ["\\\\ref"]}', 'c.json')]
    elif v == 'import odin':
        a = ['import', '-f', 'odin', '-i', s.file(_odin(k, 2), 'in.txt'), '-o', out]
    else:
        a = ['sort', '--none%d' % k]
    before = fds()
    s.command = v
    try:
        r = cli.call(a[0], a[1:])
        if r.code != 0:
            s.fails += 1
    except Exception:
        s.fails += 1
    gc.collect()
    require(opened(before) == [], 'after xigt {}, files are still open: {}', ' '.join(a), opened(before))


# ------------------------------------------------------------------ process

def world(loose=False):
    """The settings of this process that nobody expects to change."""
    from xml.etree import ElementTree
    mask = os.umask(0)
    os.umask(mask)
    r = {
        'threads': sorted(t.name for t in threading.enumerate()),
        'tasks': len(os.listdir('/proc/self/task')),
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'module path': list(sys.path),
        'recursion limit': sys.getrecursionlimit(),
        'integer digits': sys.get_int_max_str_digits(),
        'switch interval': sys.getswitchinterval(),
        'random state': hash(random.getstate()),
        'warning filters': [str(f) for f in warnings.filters],
        'locale': locale.setlocale(locale.LC_ALL),
        'garbage collection': (gc.isenabled(), gc.get_threshold()),
        'signals': [signal.getsignal(n) for n in
                    (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM, signal.SIGHUP)],
        'file mode mask': mask,
        'standard files': [(id(f), f.closed if f else None) for f in
                           (sys.stdin, sys.stdout, sys.stderr)],
        'hooks': [id(f) for f in (sys.excepthook, sys.displayhook, sys.unraisablehook,
                                  threading.excepthook, warnings.showwarning, builtins.print,
                                  builtins.open, json.dumps, ElementTree.tostring)],
        'builtins': sorted(vars(builtins)),
        'tracing': (sys.gettrace(), sys.getprofile()),
        'functions run at exit': atexit._ncallbacks() if hasattr(atexit, '_ncallbacks') else 0,
        'prefixes of ElementTree': dict(getattr(ElementTree, '_namespace_map', {})),
        'directory for temporary files': tempfile.gettempdir(),
    }
    if not loose:                 # the commands configure logging
        root = logging.getLogger()
        r['logging'] = (root.level, [id(h) for h in root.handlers], root.disabled, logging.root.manager.disable)
    return r


def differ(a, b):
    for k in a:
        if k in b and a[k] != b[k]:
            return '%s: %s before, %s after' % (k, short(a[k]), short(b[k]))


MODULES = ['xigt', 'xigt.query', 'xigt.xigtpath', 'xigt.ref', 'xigt.codecs.xigtxml',
           'xigt.codecs.xigtjson', 'xigt.exporters.latex', 'xigt.exporters.itsdb',
           'xigt.importers.odin', 'xigt.importers.toolbox']        # (the commands own their process)
IMPORT = """
import sys, os
sys.path[:0] = [sys.argv[1], sys.argv[2], sys.argv[2] + '/stubs']
from vf.checks import c33
import importlib, toolbox, odintxt, delphin.itsdb, argparse, copy, json, re, collections, itertools
before, files = c33.world(), c33.fds()
for m in sys.argv[3:]:
    importlib.import_module(m)
    print('imported')
bad = c33.differ(before, c33.world())
left = c33.opened(files)
if not bad and left:
    bad = 'open files: %s' % left
if not bad and os.listdir('.'):
    bad = 'files in the working directory: %s' % os.listdir('.')
if bad:
    print('DIFFERS ' + bad)
"""


def importing_modules(case, mon, handler, d, tmp, work):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
    env.pop('PYTHONPATH', None)
    p = subprocess.run([sys.executable, '-c', IMPORT, REPO, VERIF] + case['modules'],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=work, env=env, timeout=80,
                       stdin=subprocess.DEVNULL)
    out = p.stdout.decode('utf-8', 'replace')
    require(p.returncode == 0, 'importing {} fails: {}', case['modules'], short(p.stderr))
    bad = [x for x in out.splitlines() if x.startswith('DIFFERS')]
    require(not bad, 'importing {} leaves the process changed: {}', case['modules'], bad)
    mon.hit('imports', out.count('imported'))
    mon.trivial = False


def perform(name, s):
    f, v = OPS[name]
    try:
        f(s, v)
        s.done = True
    except Exception as e:      # that it fails is not what this is about
        if isinstance(e, Violation):
            raise
        if os.environ.get('VF_DEBUG'):
            print('broken off:', name, repr(e))
            import traceback; print(traceback.format_exc()[-300:])


def generate(rng, i, tier):
    if rng.random() < .03:
        m = sorted(MODULES)
        rng.shuffle(m)
        return {'kind': 'import', 'modules': m}
    if rng.random() < .3:
        return {'kind': 'growth', 'op': rng.choice(sorted(OPS)), 'first': rng.randint(0, 10 ** 6)}
    n = rng.randint(3, 10)
    return {'kind': 'traces', 'ops': [rng.choice(sorted(OPS)) for _ in range(n)],
            'first': rng.randint(0, 10 ** 6), 'seed': rng.randint(0, 10 ** 9),
            'hold': rng.random() < .5}


@contextmanager
def elsewhere(mon):
    """In directories of our own: (data, temporary files, working directory)"""
    tmp = mon.scratch()
    dirs = [os.path.join(tmp, x) for x in ('data', 'temporary', 'work')]
    for d in dirs:
        os.mkdir(d)
    old, oldtmp, oldenv = os.getcwd(), tempfile.tempdir, os.environ.get('TMPDIR')
    tempfile.tempdir = dirs[1]
    os.environ['TMPDIR'] = dirs[1]
    os.chdir(dirs[2])
    handler = logging.NullHandler()          # so that messages do not configure logging
    try:
        yield dirs, handler
    finally:
        logging.getLogger().removeHandler(handler)
        os.chdir(old)
        tempfile.tempdir = oldtmp
        if oldenv is None:
            os.environ.pop('TMPDIR', None)
        else:
            os.environ['TMPDIR'] = oldenv


def run(case, mon):
    with elsewhere(mon) as (dirs, handler):
        {'growth': growth, 'traces': traces, 'import': importing_modules}[case['kind']](case, mon, handler, *dirs)


def traces(case, mon, handler, d, tmp, work):
    rng = random.Random(case['seed'])
    watched, held = [], []
    gc.collect()
    files = fds()
    expected = set()
    for n, name in enumerate(case['ops']):
        logging.getLogger().addHandler(handler)
        before = world(OPS[name][0] is command)
        s = Source(d, case['first'] + n, rng)
        perform(name, s)
        after = world(OPS[name][0] is command)
        bad = differ(before, after)
        require(not bad, '{} leaves the process changed: {}', name, bad)
        if not case['hold']:
            del s.held[:]
        gc.collect()
        left = opened(files)
        require(not left, '{} leaves files open: {}', name, left)
        expected |= s.outs
        for where, got, may in (('among the temporary files', os.listdir(tmp), set()),
                                ('in the working directory', os.listdir(work), set()),
                                ('beside its files', os.listdir(d), expected)):
            got = sorted(x for x in got if x not in may)
            require(not got, '{} leaves {} {}', name, short(got), where)
        mon.hit('operations')
        mon.hit('fails', s.fails)
        mon.hit('done', s.done)
        mon.hit('files seen open', s.opened)
        mon.hit('callers files', s.owned)
        mon.hit('members seen to die', s.died)
        mon.hit('commands', s.command is not None)
        watched += s.watched
        held += s.held
        del s
        mon.state(name, case['hold'])
    try:
        os.waitpid(-1, os.WNOHANG)
        raise Violation('processes have been started: %s' % case['ops'])
    except ChildProcessError:
        pass
    del held[:]
    gc.collect()
    for r, what in watched:
        x = r()
        if x is not None:
            who = [short(y, 100) for y in gc.get_referrers(x) if not isinstance(y, types.FrameType)][:3]
            raise Violation('after {}, {} is still kept, by {}'.format(case['ops'], what, who))
    mon.hit('objects seen to die', len(watched))
    mon.trivial = not watched


def growth(case, mon, handler, d, tmp, work):
    name = case['op']
    k = case['first']
    keep = {}

    def repeat(n):
        nonlocal k
        for _ in range(n):
            k += 1
            s = Source(d, k, None, keep)
            perform(name, s)
            del s.held[:], s.watched[:]
            mon.hit('repetitions')
            for x in os.listdir(d):
                p = os.path.join(d, x)
                if os.path.isdir(p):
                    shutil.rmtree(p)
                else:
                    os.unlink(p)
        if hasattr(sys, '_clear_type_cache'):
            sys._clear_type_cache()          # which keeps names that were looked up
        gc.collect()
        return tracemalloc.get_traced_memory()[0]

    logging.getLogger().addHandler(handler)
    repeat(8)
    tracemalloc.start()
    try:
        m = [repeat(25)]
        for n in (40, 40):
            m.append(repeat(n))
        grown = m[-1] - m[0]
        mon.state(name, grown > 200)
        if grown > 80 * LEAK:
            if os.environ.get('VF_DEBUG'):
                print('longer:', name, m)
            # perhaps a cache, with bounds; perhaps a table that has just been enlarged
            mon.hit('looked at for longer')
            repeat(400)
            m = [repeat(0)]
            for _ in range(4):
                m.append(repeat(300))
            if all(b - a >= 300 * LEAK for a, b in zip(m, m[1:])) or m[4] - m[0] >= 1200 * 60:
                repeat(2600)
                m = [repeat(0)]
                for _ in range(3):
                    m.append(repeat(700))
                if all(b - a >= 700 * LEAK for a, b in zip(m, m[1:])):
                    raise Violation('{} leaves {} bytes behind each time, after thousands of times'
                                    .format(name, (m[3] - m[0]) // 2100))
    finally:
        tracemalloc.stop()
    mon.hit('growth')
    mon.trivial = False
