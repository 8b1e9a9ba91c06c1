"""C29: Ill-formed structures are rejected, well-formed ones accepted."""
import io
import json
import random
import re
import warnings

from .. import gen, model
from ..engine import Inconclusive, Violation, require, short

ID = 'C29'
RULE = ('a case is a generated structure, a place in it and a way to put a value there: a constructor, '
        'each container operation, a property, or loading a document. Ill-formed values have to raise an '
        'error and leave the container as it was; the same ways with a well-formed value have to work '
        'and report it; non-trivial: an ill-formed value, or one of an unusual form')
CASES = {'quick': 40000, 'thorough': 500000}
MIN_EVENTS = {'rejected: kind': 2400, 'rejected: duplicate': 2000, 'rejected: id': 1100,
              'rejected: references': 1200, 'rejected: name': 1200, 'rejected: metadata': 1200,
              'accepted': 4000, 'late position': 700, 'documents rejected': 800,
              'documents accepted': 250, 'lazy': 500}

CONTAINERS = ('corpus', 'igt', 'tier', 'metadata', 'meta', 'mc')
CHILD = {'corpus': 'igt', 'igt': 'tier', 'tier': 'item', 'metadata': 'meta', 'meta': 'mc', 'mc': 'mc'}
WITH_MD = ('corpus', 'igt', 'tier')
OPS = ('ctor', 'append', 'insert', 'extend', 'iadd', 'setitem', 'setter', 'add', 'add_list')
HAS_ID = ('corpus', 'igt', 'tier', 'item', 'metadata', 'meta')

BAD_IDS = ('', '1', '1a', '-a', '_a', '.a', ' a', '\na', '\ta', '{a', '*', '+', '9', ' ', '\n', '-', '_',
           '[a', '@a', '#1', '/a', '"a"', ':a', ',a', '\u00a0a', '0x', '!', '\ufeffa', '$a', '%s')
NONSTR_IDS = (1, 0, 2.5, True, False, b'a1', ['a1'], ('a',), {'a': 1})
GOOD_IDS = ('a', 'Z', 'a1', 'A-1', 'a.b', 'a_b', 'x-', 'x.', 'x_', 'a1.2-3_4', 'igt1-1', 'q',
            'aé', 'a語', 'a\u0301', 'i' * 300, 'None', 'null', 'id', 'zß', 'tiéro', 'm0.0')
BAD_NAMES = ('', '1', '1a', '-a', '.a', ' a', 'a b', 'a:b', ':a', 'a:', '<a', 'a<', 'a>', 'a/', '/', 'a\n',
             '\na', 'a\t', '{u}a', 'a&', 'a"', "a'", 'a=', 'a b c', 'a\u00a0b', '@a', '*', 'a*', 'a+b', '#',
             'a,b', 'x;', '!', 'a?', 'a\\', 'a ', 'a\r', 'a\n\n', 'ab\u2028', '9é', '-', '.', 'a(b)', '[a]')
GOOD_NAMES = ('a', '_', '_a', 'A', 'é', 'a.b', 'a-b', 'a_b', 'a1', 'a-', 'a.', 'a_', '語', 'aé1', '_1', 'igt',
              'x' * 200, 'ß-ß', 'кошка', 'a.b-c_d.1', 'meta', '__', 'a--b', 'a..b')


class SubclassMaker:
    cache = {}

    @classmethod
    def get(cls, k):
        c = model.classes()[k]
        if cls.cache.get(k, (None,))[0] is not c:
            cls.cache[k] = (c, type('My' + c.__name__, (c,), {}))
        return cls.cache[k][1]


class Odd:
    id = None
    type = None


def generate(rng, i, tier):
    what = rng.choice(['kind', 'kind', 'duplicate', 'duplicate', 'id', 'references', 'name', 'metadata',
                       'document', 'accept', 'accept', 'accept'])
    return {'what': what, 'seed': rng.randint(0, 10 ** 12)}


def obj(rng, k, id=None, deep=False, sub=False):
    """A well-formed object of a kind"""
    c = SubclassMaker.get(k) if sub else model.classes()[k]
    if k == 'mc':
        return c(rng.choice(GOOD_NAMES))
    o = c(id=id, type=rng.choice([None, 'x', 'words']))
    if k in ('item', 'meta') and rng.random() < .5:
        o.text = rng.choice(gen.WORDS)
    if deep and k != 'item':
        for j in range(rng.randint(0, 3)):
            ck = CHILD[k]
            o.append(obj(rng, ck, 'ch%d' % j, deep=True) if ck != 'mc' else
                     model.classes()['mc'](rng.choice(GOOD_NAMES)))
    return o


def container(rng, k, n=None, ids='all'):
    n = rng.randint(0, 5) if n is None else n
    xs = []
    for j in range(n):
        xs.append(obj(rng, CHILD[k], 'c%d' % j if ids == 'all' or rng.random() < .6 else None,
                      deep=rng.random() < .3))
    o = model.build({'k': k, 'id': 'top', 'name': 'top', 'attrs': {}})
    for x in xs:
        o.append(x)
    return o


def md_container(rng, n=None):
    k = rng.choice(WITH_MD)
    o = container(rng, k)
    for j in range(rng.randint(0, 4) if n is None else n):
        o.metadata.append(obj(rng, 'metadata', 'md%d' % j, deep=True))
    return k, o


def state(c):
    """What a container holds and how its ids resolve"""
    xs = list(c)
    return ([id(x) for x in xs], [getattr(x, 'id', None) for x in xs],
            [id(c.get(x.id)) if getattr(x, 'id', None) is not None else None for x in xs], len(c))


def apply(rng, c, k, op, values, at):
    """Put values into c (whose property for them is k) by an operation. The values that have to be
    single are given one by one, up to the last."""
    seq = rng.choice([list, tuple, iter])(values)
    if op == 'append':
        for v in values:
            c.append(v)
    elif op == 'add':
        for v in values:
            c.add(v)
    elif op == 'insert':
        for v in values:
            c.insert(at, v)
    elif op == 'extend':
        c.extend(seq)
    elif op == 'add_list':
        c.add_list(seq)
    elif op == 'iadd':
        c += seq
    elif op == 'setitem':
        for v in values:
            c[at] = v
    elif op == 'setter':
        k[0](seq)
    else:
        raise Inconclusive(op)


def rejected(fn, what):
    """The error fn raised"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            r = fn()
        except Exception as e:
            return e
    raise Violation('%s was accepted' % what)


def accepted(fn, what):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return fn()
        except Exception as e:
            raise Violation('%s was rejected: %s: %s' % (what, type(e).__name__, e)) from e


def place(rng):
    """(description, container, its property setter, kind of members, owner kind)"""
    if rng.random() < .25:
        k, o = md_container(rng)
        return 'metadata of ' + k, o.metadata, (lambda v: setattr(o, 'metadata', v),), 'metadata', k, 'metadata'
    k = rng.choice(CONTAINERS)
    o = container(rng, k)
    return k, o, (lambda v: setattr(o, model.KIDS[k], v),), CHILD[k], k, model.KIDS[k]


def wrong(rng, k):
    """Something that is no object of kind k"""
    r = rng.random()
    others = [x for x in (*CONTAINERS, 'item') if x != k]
    if r < .65:
        return obj(rng, rng.choice(others), 'w1')
    if r < .75:
        return model.classes()[rng.choice([k, *others])]      # the class itself
    return rng.choice([None, 'text', '', 5, 0, {}, {'id': 'a'}, [], (), Odd(), object(), b'x', 1.5, True])


# ---------------------------------------------------------------- ill-formed

def do_put(rng, mon, label, place_, op, values, ok):
    """Constructor or operation on an existing container; it has to fail (ok false) or succeed"""
    where, c, setter, member, owner, prop = place_
    what = '%s (%s of %s in %s)' % (label, op, ' '.join(short(v, 60) for v in values[-1:]), where)
    if op == 'ctor':
        cls = model.classes()[owner]
        pos = ['n'] if owner == 'mc' else []
        vs = rng.choice([list, tuple])(values)
        kw = {prop: vs}
        if not ok:
            rejected(lambda: cls(*pos, **kw), what)
            return None
        o = accepted(lambda: cls(*pos, **kw), what)
        got = list(o.metadata) if prop == 'metadata' else list(o)
        require(len(got) == len(values) and all(a is b for a, b in zip(got, values)),
                '{}: holds {}', what, short(got))
        return o.metadata if prop == 'metadata' else o
    n = len(c)
    if op == 'setitem' and n == 0:
        op = 'append'
    at = rng.randint(-n, n - 1) if op == 'setitem' else rng.randint(-n - 1, n + 1)
    before = state(c)
    held = list(c)
    if not ok:
        if op in ('append', 'add', 'insert', 'setitem'):
            values = values[-1:]
        rejected(lambda: apply(rng, c, setter, op, values, at), what)
        require(state(c) == before, '{}: the container holds {} instead of {}', what, short(list(c)),
                short(held))
        return None
    if op in ('setitem', 'append', 'add', 'insert'):
        values = values[-1:]
    accepted(lambda: apply(rng, c, setter, op, values, at), what)
    want = list(held)
    if op in ('append', 'add', 'extend', 'add_list', 'iadd'):
        want += values
    elif op == 'insert':
        want.insert(at, values[0])
    elif op == 'setitem':
        want[at] = values[0]
    else:
        want = list(values)
    got = list(c)
    require(len(got) == len(want) and all(a is b for a, b in zip(got, want)), '{}: holds {}, not {}', what,
            short(got), short(want))
    return c


def bad_kind(rng, mon):
    p = place(rng)
    member = p[3]
    good = [obj(rng, member, 'g%d' % j) for j in range(rng.randint(0, 4))]
    op = rng.choice(OPS)
    at = rng.randint(0, len(good))
    w = wrong(rng, member)
    if op in ('append', 'add', 'insert', 'setitem'):
        values = good + [w]
    else:
        values = good[:at] + [w] + good[at:]
        if at > 1:
            mon.hit('late position')
    do_put(rng, mon, 'an object of the wrong kind', p, op, values, False)
    mon.hit('rejected: kind')
    mon.hit('kind by ' + op)
    mon.state('kind', p[0], op, model.kind(w) if not isinstance(w, type) else 'class', len(good), at)


def duplicate(rng, mon):
    """A second object with an id"""
    r = rng.random()
    if r < .15:
        return rename(rng, mon)
    p = place(rng)
    where, c, setter, member, owner, prop = p
    if member == 'mc':
        p = place(rng)
        where, c, setter, member, owner, prop = p
        if member == 'mc':
            k = rng.choice(['corpus', 'igt', 'tier', 'metadata'])
            o = container(rng, k, rng.randint(1, 5))
            p = (k, o, (lambda v: setattr(o, model.KIDS[k], v),), CHILD[k], k, model.KIDS[k])
            where, c, setter, member, owner, prop = p
    op = rng.choice(OPS)
    present = [x for x in c if x.id is not None]
    good = [obj(rng, member, 'g%d' % j) for j in range(rng.randint(1, 5))]
    within = op in ('ctor', 'setter') or (op in ('extend', 'iadd', 'add_list') and rng.random() < .5)
    if within:
        # two of the new objects share an id
        src = rng.choice(good)
        d = src if rng.random() < .2 else obj(rng, member, src.id, deep=rng.random() < .3)
        at = rng.randint(0, len(good))
        values = good[:at] + [d] + good[at:]
        if at > 1:
            mon.hit('late position')
    else:
        if not present:
            return do_nothing(mon)
        src = rng.choice(present)
        d = src if rng.random() < .15 else obj(rng, member, src.id, deep=rng.random() < .3)
        if op == 'setitem':
            # at the place of another one
            others = [i for i, x in enumerate(c) if x is not src]
            if not others:
                return do_nothing(mon)
            i = rng.choice(others)
            before, held = state(c), list(c)
            i2 = i - len(held) if rng.random() < .5 else i
            what = 'a second object with id %s (assigned at %d in %s)' % (src.id, i2, where)

            def f():
                c[i2] = d
            rejected(f, what)
            require(state(c) == before, '{}: the container was changed', what)
            mon.hit('rejected: duplicate')
            mon.hit('duplicate by setitem')
            return
        if op in ('append', 'add', 'insert'):
            values = [d]
        else:
            at = rng.randint(0, len(good))
            values = good[:at] + [d] + good[at:]
    do_put(rng, mon, 'a second object with id %s' % d.id, p, op, values, False)
    mon.hit('rejected: duplicate')
    mon.hit('duplicate by ' + op)
    mon.state('dup', where, op, within, len(values))


def do_nothing(mon):
    mon.trivial = True
    mon.hit('nothing to do')


def rename(rng, mon):
    """Ids made equal afterwards are noticed when the index is refreshed"""
    k = rng.choice(['corpus', 'igt', 'tier', 'metadata'])
    c = container(rng, k, rng.randint(2, 6))
    i, j = rng.sample(range(len(c)), 2)
    xs = list(c)
    xs[i].id = xs[j].id
    rejected(c.refresh_index, 'refreshing the index of a %s whose members %d and %d have the id %s'
             % (k, i, j, xs[j].id))
    require([id(x) for x in c] == [id(x) for x in xs], 'refreshing the index changed the members')
    mon.hit('rejected: duplicate')
    mon.hit('duplicate by renaming')


def bad_id(rng, mon):
    k = rng.choice(HAS_ID)
    v = rng.choice(BAD_IDS) if rng.random() < .85 else rng.choice(NONSTR_IDS)
    if isinstance(v, str) and rng.random() < .3:
        v += rng.choice(GOOD_IDS)
    if isinstance(v, str) and re.match(r'[^\W\d_]', v):
        return do_nothing(mon)
    what = 'the id %r of a %s' % (v, k)
    if rng.random() < .5:
        rejected(lambda: model.classes()[k](id=v), what)
        mon.hit('id by ctor')
    else:
        old = rng.choice([None, 'old'])
        o = obj(rng, k, old, sub=rng.random() < .2)
        rejected(lambda: setattr(o, 'id', v), what)
        require(o.id == old, '{}: the id is now {}', what, short(o.id))
        mon.hit('id by property')
    mon.hit('rejected: id')
    mon.state('id', k, repr(v))


def bad_refs(rng, mon):
    """segmentation together with content or alignment"""
    k = rng.choice(['tier', 'item'])
    vals = ('a', 'a1', 'a1[0:3]', 'a1[0:1+2:3],b2', 'w', 'w1,w2', 'x y')
    pick = rng.choice([['segmentation', 'content'], ['segmentation', 'alignment'],
                       ['segmentation', 'content', 'alignment']])
    rng.shuffle(pick)
    kw = {ra: rng.choice(vals) for ra in pick}
    what = 'a %s with %s' % (k, ' and '.join('%s %r' % x for x in kw.items()))
    cls = SubclassMaker.get(k) if rng.random() < .2 else model.classes()[k]
    if rng.random() < .5:
        extra = {}
        if rng.random() < .5:
            extra = {'id': 'a1', 'type': 'words'}
        if rng.random() < .2:
            extra['attributes'] = {'segmentation': 'q'}
        rejected(lambda: cls(**kw, **extra), what)
        mon.hit('references by ctor')
    else:
        last = next(ra for ra in pick[::-1] if ra == 'segmentation' or 'segmentation' in pick[:pick.index(ra)])
        first = [ra for ra in pick[:pick.index(last)]
                 if (ra == 'segmentation') != (last == 'segmentation')]
        o = cls(id='o')
        how = rng.choice(['ctor', 'property', 'attributes'])
        if how == 'ctor':
            o = cls(id='o', **{ra: kw[ra] for ra in first})
        for ra in first:
            if how == 'property':
                setattr(o, ra, kw[ra])
            elif how == 'attributes':
                o.attributes[ra] = kw[ra]
        before = dict(o.attributes)
        rejected(lambda: setattr(o, last, kw[last]), what + ' (set last: %s)' % last)
        require({a: b for a, b in o.attributes.items() if b is not None}
                == {a: b for a, b in before.items() if b is not None}, '{}: the attributes are now {}', what,
                o.attributes)
        mon.hit('references by property')
    mon.hit('rejected: references')
    mon.state('refs', k, *pick)


def bad_name(rng, mon):
    import xigt
    v = rng.choice(BAD_NAMES) if rng.random() < .7 else \
        rng.choice(GOOD_NAMES) + rng.choice(['\n', ' ', ':', '<', '>', '/', '&', '\t', '"', '(', '*', '\r',
                                             '\u2028', '\x00', ':a', ' b'])
    if rng.random() < .07:
        v = rng.choice([None, 1, b'a', ['a'], 1.5])
    what = 'the name %r of a metadata child' % (v,)
    if rng.random() < .5:
        kw = {'text': 'x', 'namespace': 'urn:x', 'nsmap': {'x': 'urn:x'}} if rng.random() < .4 else {}
        rejected(lambda: xigt.MetaChild(v, **kw), what)
    else:
        o = xigt.MetaChild('old')
        rejected(lambda: setattr(o, 'name', v), what)
        require(o.name == 'old', '{}: the name is now {}', what, short(o.name))
    mon.hit('rejected: name')
    mon.state('name', repr(v))


def bad_metadata(rng, mon):
    import xigt
    r = rng.choice(['both', 'both', 'bare', 'bare set', 'bare append'])
    if r == 'both':
        text = rng.choice(['text', '', 'a b', [xigt.Meta(text='x')], []])
        metas = rng.choice([[xigt.Meta(text='y')], [], [xigt.Meta(type='language'), xigt.Meta()], ()])
        kw = rng.choice([{}, {'id': 'm1'}, {'type': 'xigt-meta'}])
        rejected(lambda: xigt.Metadata(text=text, metas=metas, **kw),
                 'metadata with text %s and metas %s' % (short(text), short(metas)))
    else:
        k = rng.choice(WITH_MD)
        bare = obj(rng, 'metadata', rng.choice([None, 'b1']), deep=rng.random() < .6,
                   sub=rng.random() < .2)
        what = 'a bare Metadata object (%d entries) as metadata of a %s' % (len(bare), k)
        if r == 'bare':
            rejected(lambda: model.classes()[k](metadata=bare), what)
        else:
            k, o = md_container(rng)
            before = state(o.metadata)
            rejected(lambda: setattr(o, 'metadata', bare), what)
            require(state(o.metadata) == before, '{}: the metadata are now {}', what, short(list(o.metadata)))
    mon.hit('rejected: metadata')
    mon.state('metadata', r)


# ------------------------------------------------------------------ documents

TAG = {'corpus': 'xigt-corpus', 'igt': 'igt', 'tier': 'tier', 'item': 'item', 'metadata': 'metadata',
       'meta': 'meta', 'mc': 'x'}
JSONKIDS = {'corpus': 'igts', 'igt': 'tiers', 'tier': 'items', 'metadata': 'metas', 'meta': 'children',
            'mc': 'children'}


def to_xml(n):
    from xml.sax.saxutils import quoteattr
    s = '<' + (n['name'] if n['k'] == 'mc' else TAG[n['k']])
    if n.get('id') is not None:
        s += ' id=' + quoteattr(n['id'], {'\n': '&#10;', '\t': '&#9;'})
    s += '>'
    for x in (n.get('md') or []) + (n.get('ch') or []):
        s += to_xml(x)
    return s + (n.get('text') or '') + '</' + (n['name'] if n['k'] == 'mc' else TAG[n['k']]) + '>'


def to_json(n):
    d = {}
    if n['k'] == 'mc':
        d['name'] = n['name']
    elif n.get('id') is not None:
        d['id'] = n['id']
    if n.get('md'):
        d['metadata'] = [to_json(x) for x in n['md']]
    if n['k'] != 'item':
        d[JSONKIDS[n['k']]] = [to_json(x) for x in n.get('ch') or []]
    if n.get('text'):
        d['text'] = n['text']
    return d


def doc(rng, k='corpus', depth=0, big=1):
    n = {'k': k, 'id': None, 'md': [], 'ch': []}
    if k == 'mc':
        n['name'] = 'c%d' % rng.randint(0, 5)
    if k in WITH_MD and rng.random() < .4:
        n['md'] = [dict(doc(rng, 'metadata'), id='md%d' % j) for j in range(rng.randint(1, 3))]
    if k == 'mc':
        if depth < 2 and rng.random() < .4:
            n['ch'] = [doc(rng, 'mc', depth + 1) for _ in range(rng.randint(0, 2))]
    elif k != 'item':
        ck = CHILD[k]
        for j in range(rng.randint(0 if k != 'corpus' else 1, 3) * (big if k == 'corpus' else 1)):
            c = doc(rng, ck, 1)
            if ck != 'mc':
                c['id'] = '%s%d' % (ck[0], j)
            n['ch'].append(c)
    return n


def flat(n, parent=None):
    yield n, parent
    for x in (n.get('md') or []) + (n.get('ch') or []):
        yield from flat(x, n)


def read(data, fmt, mode, rng, how):
    from xigt.codecs import xigtjson, xigtxml
    if fmt == 'json':
        if how == 'loads':
            return xigtjson.loads(data)
        return xigtjson.load(io.StringIO(data), mode=mode)
    if how == 'loads':
        return xigtxml.loads(data)
    return xigtxml.load(io.BytesIO(data.encode('utf-8')), mode=mode)


def document(rng, mon):
    """Ill-formed content of documents is rejected on loading"""
    n = doc(rng, big=rng.choice([1, 1, 3, 30]))
    fmt = rng.choice(['xml', 'json'])
    nodes = list(flat(n))
    what = rng.choice(['duplicate', 'duplicate', 'id', 'name', 'none'])
    desc = ''
    igt_level = False
    if what == 'duplicate':
        groups = []
        for x, _ in nodes:
            for f in ('md', 'ch'):
                kids = [y for y in x.get(f) or [] if y['k'] != 'mc']
                if len(kids) > 1:
                    groups.append((x, kids))
        if not groups:
            return do_nothing(mon)
        x, kids = rng.choice(groups)
        a, b = rng.sample(range(len(kids)), 2)
        kids[max(a, b)]['id'] = kids[min(a, b)]['id']
        desc = 'two %s with the id %s in one %s' % (kids[a]['k'], kids[a]['id'], x['k'])
        igt_level = x['k'] == 'corpus' and kids[a]['k'] == 'igt'
    elif what == 'id':
        x = rng.choice([x for x, _ in nodes if x['k'] != 'mc'])
        v = rng.choice(BAD_IDS)
        if '\ufeff' in v:
            return do_nothing(mon)
        x['id'] = v
        desc = 'the id %r of a %s' % (v, x['k'])
    elif what == 'name':
        xs = [x for x, _ in nodes if x['k'] == 'mc']
        if not xs or fmt == 'xml':
            return do_nothing(mon)
        x = rng.choice(xs)
        x['name'] = rng.choice([b for b in BAD_NAMES if ':' not in b])
        desc = 'the name %r' % x['name']
    mode = rng.choice(['full', 'full', 'incremental', 'transient']) if not igt_level else \
        rng.choice(['full', 'full', 'incremental'])
    how = rng.choice(['load', 'load', 'loads']) if mode == 'full' else 'load'
    data = to_xml(n) if fmt == 'xml' else json.dumps(to_json(n))
    if mode != 'full':
        mon.hit('lazy')
    full = '%s in %s (%s, %s)' % (desc or 'a well-formed document', fmt, mode, how)

    def f():
        xc = read(data, fmt, mode, rng, how)
        return xc, list(xc)
    if what == 'none':
        xc, got = accepted(f, full)
        require([g.id for g in got] == [g['id'] for g in n['ch']], '{}: igts {}', full, [g.id for g in got])
        mon.hit('documents accepted')
        mon.hit('accepted')
        return
    rejected(f, full)
    mon.hit('documents rejected')
    mon.state('document', what, fmt, mode)


# ---------------------------------------------------------------- well-formed

def accept(rng, mon):
    import xigt
    what = rng.choice(['put', 'put', 'put', 'id', 'refs', 'name', 'metadata text', 'metadata', 'same id',
                       'none id', 'ids elsewhere'])
    if what == 'put':
        p = place(rng)
        member = p[3]
        sub = rng.random() < .3
        n = rng.randint(0, 5)
        used = {x.id for x in p[1] if getattr(x, 'id', None)}
        ids = [x for x in rng.sample(GOOD_IDS, len(GOOD_IDS)) if x and x not in used]
        values = [obj(rng, member, rng.choice([None, ids[j]]), deep=rng.random() < .3, sub=sub)
                  for j in range(n)]
        if member in ('igt', 'tier') and rng.random() < .2:
            # empty containers are not true, but still objects
            values.append(model.classes()[member](id='empty1'))
        if not values:
            values = [obj(rng, member, 'v1')]
        op = rng.choice(OPS)
        c = do_put(rng, mon, 'well-formed objects', p, op, values, True)
        for x in list(c):
            if x.id is not None:
                require(c[x.id] is x and c.get(x.id) is x, '{}: looking up {} finds something else', op, x.id)
        mon.hit('accept by ' + op)
        mon.state('put', p[0], op, len(values))
    elif what == 'id':
        k = rng.choice(HAS_ID)
        v = rng.choice(GOOD_IDS) if rng.random() < .6 else gen.make_id(rng, rng.choice('abzAZ'), rng.randint(0, 99))
        o = accepted(lambda: model.classes()[k](id=v), 'the id %r' % v)
        require(o.id == v, 'the id {} is reported as {}', short(v), short(o.id))
        o = obj(rng, k, rng.choice([None, 'old']))
        accepted(lambda: setattr(o, 'id', v), 'the id %r' % v)
        require(o.id == v, 'the id {} is reported as {}', short(v), short(o.id))
        accepted(lambda: setattr(o, 'id', None), 'removing the id')
        require(o.id is None, 'the removed id is reported as {}', short(o.id))
    elif what == 'refs':
        k = rng.choice(['tier', 'item'])
        cls = model.classes()[k]
        vals = ('a', 'a1', 'a1[0:3]', 'a1[0:1+2:3],b2', 'w1,w2')
        pick = rng.choice([['content', 'alignment'], ['segmentation'], ['content'], ['alignment'], []])
        kw = {ra: rng.choice(vals) for ra in pick}
        unset = {ra: rng.choice([None, None, '']) for ra in gen.REFATTRS if ra not in pick and rng.random() < .4}
        desc = 'a %s with %s and no %s' % (k, kw, unset)
        if rng.random() < .5:
            o = accepted(lambda: cls(**kw, **{a: b for a, b in unset.items() if b is None}), desc)
        else:
            o = cls()

            def f():
                for ra in rng.sample([*kw, *unset], len(kw) + len(unset)):
                    setattr(o, ra, kw.get(ra) if ra in kw else unset[ra])
            accepted(f, desc)
        for ra in gen.REFATTRS:
            v = getattr(o, ra)
            require(v == kw.get(ra) or (ra not in kw and not v), '{}: {} is reported as {}', desc, ra, short(v))
            if ra in kw:
                require(o.get_attribute(ra) == kw[ra] and o.attributes.get(ra) == kw[ra],
                        '{}: the attribute {} is {}', desc, ra, short(o.attributes.get(ra)))
        if 'segmentation' in kw and rng.random() < .5:
            # after giving up the segmentation, the others are possible
            def f():
                o.segmentation = None
                o.content = 'a1'
                o.alignment = 'b1'
            accepted(f, desc + ' replaced by content and alignment')
            require(o.content == 'a1' and o.alignment == 'b1' and not o.segmentation,
                    '{}: replaced: {}', desc, o.attributes)
    elif what == 'name':
        v = rng.choice(GOOD_NAMES) + (rng.choice(GOOD_NAMES) if rng.random() < .3 else '')
        o = accepted(lambda: xigt.MetaChild(v), 'the name %r' % v)
        require(o.name == v, 'the name {} is reported as {}', short(v), short(o.name))
        o = xigt.MetaChild('old')
        accepted(lambda: setattr(o, 'name', v), 'the name %r' % v)
        require(o.name == v, 'the name {} is reported as {}', short(v), short(o.name))
    elif what == 'metadata text':
        v = rng.choice([gen.text(rng, empty=False), 'x'])
        o = accepted(lambda: xigt.Metadata(text=v), 'metadata of text')
        require(len(o) == 1 and o[0].text == v and o[0].type is None and o[0].id is None,
                'metadata of the text {} has {}', short(v), short([m.text for m in o]))
        ms = [obj(rng, 'meta', 'm%d' % j) for j in range(rng.randint(0, 3))]
        o = accepted(lambda: xigt.Metadata(text=list(ms)), 'metadata of entries given as text')
        require(len(o) == len(ms) and all(a is b for a, b in zip(o, ms)), 'metadata entries differ')
        o = container(rng, 'metadata')
        accepted(lambda: setattr(o, 'text', list(ms)), 'entries of metadata replaced by way of text')
        got = accepted(lambda: o.text, 'entries of metadata by way of text')
        require(len(o) == len(got) == len(ms) and all(a is b is c for a, b, c in zip(o, ms, got)),
                'entries of metadata replaced by way of text differ')
        held = list(o)
        w = wrong(rng, 'meta')
        rejected(lambda: setattr(o, 'text', [*ms, w]), 'replacing entries by %s' % short(w))
        require(len(o) == len(held) and all(a is b for a, b in zip(o, held)),
                'a refused replacement changes the entries')
    elif what == 'metadata':
        k = rng.choice(WITH_MD)
        n = rng.randint(0, 4)
        mds = [obj(rng, 'metadata', rng.choice([None, 'md%d' % j]), deep=True) for j in range(n)]
        seq = rng.choice([list, tuple, iter])
        if rng.random() < .5:
            o = accepted(lambda: model.classes()[k](metadata=seq(mds)), 'a sequence of metadata')
        else:
            _, o = md_container(rng)
            accepted(lambda: setattr(o, 'metadata', seq(mds)), 'a sequence of metadata')
        require(len(o.metadata) == n and all(a is b for a, b in zip(o.metadata, mds)), 'the metadata differ')
        accepted(lambda: setattr(o, 'metadata', None), 'no metadata')
        require(len(o.metadata) == 0, 'removed metadata are still there')
    elif what == 'same id':
        # an object may replace the one that has its id
        k = rng.choice(['corpus', 'igt', 'tier', 'metadata'])
        c = container(rng, k, rng.randint(1, 5))
        held = list(c)
        i = rng.randrange(len(held))
        d = held[i] if rng.random() < .2 else obj(rng, CHILD[k], held[i].id)

        def f():
            c[i - len(held) if rng.random() < .5 else i] = d
        accepted(f, 'replacing an object by one of the same id')
        require(c[d.id] is d and all(a is b for a, b in zip(c, held[:i] + [d] + held[i + 1:])),
                'the replaced object is still there')
        # removed ids are free again
        x = held[rng.randrange(len(held))]
        y = c[x.id]
        rng.choice([lambda: c.remove(y), lambda: c.__delitem__(y.id), lambda: c.pop(list(c).index(y))])()
        z = obj(rng, CHILD[k], y.id)
        accepted(lambda: c.append(z), 'an object with an id that was removed')
        require(c[z.id] is z, 'the id of a removed object finds something else')
    elif what == 'none id':
        k = rng.choice(['corpus', 'igt', 'tier', 'metadata'])
        n = rng.randint(2, 5)
        xs = [obj(rng, CHILD[k], None) for _ in range(n)]
        c = container(rng, k, 0)
        accepted(lambda: c.extend(xs), 'several objects without ids')
        accepted(c.refresh_index, 'refreshing the index of objects without ids')
        require(len(c) == n and all(a is b for a, b in zip(c, xs)), 'the objects differ')
    else:
        # the same id in different containers
        a, b = (xigt.Tier(id='t%d' % j, items=[xigt.Item(id='same', text=str(j))]) for j in range(2))
        g = accepted(lambda: xigt.Igt(id='same', tiers=[a, b]), 'items of different tiers with one id')
        h = xigt.Igt(id='h', tiers=[xigt.Tier(id='t0'), xigt.Tier(id='same', items=[xigt.Item(id='t0')])])
        xc = accepted(lambda: xigt.XigtCorpus(id='same', igts=[g, h]), 'tiers of different igts with one id')
        require(xc['same'] is g and xc['h'] is h and g['t0'] is a and h['t0'] is not a
                and [t['same'].text for t in g] == ['0', '1'], 'the same id in different containers is mixed up')
    mon.hit('accepted')
    mon.hit('accept: ' + what)


def run(case, mon):
    rng = random.Random(case['seed'])
    {'kind': bad_kind, 'duplicate': duplicate, 'id': bad_id, 'references': bad_refs, 'name': bad_name,
     'metadata': bad_metadata, 'document': document, 'accept': accept}[case['what']](rng, mon)
