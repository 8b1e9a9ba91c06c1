"""Between plain specs (see gen.py) and xigt objects, through the public API,
and the meaning of a spec (scopes, parents)."""
import io
import warnings

from .engine import Violation, require, short
from .gen import REFATTRS

KIND = {'XigtCorpus': 'corpus', 'Igt': 'igt', 'Tier': 'tier', 'Item': 'item',
        'Metadata': 'metadata', 'Meta': 'meta', 'MetaChild': 'mc'}


def classes():
    import xigt
    return {'corpus': xigt.XigtCorpus, 'igt': xigt.Igt, 'tier': xigt.Tier, 'item': xigt.Item,
            'metadata': xigt.Metadata, 'meta': xigt.Meta, 'mc': xigt.MetaChild}


KIDS = {'corpus': 'igts', 'igt': 'tiers', 'tier': 'items', 'metadata': 'metas',
        'meta': 'children', 'mc': 'children'}


def build(n, rng=None, route=None):
    """Build the object of a spec. route: ctor, append, insert, extend,
    setter, iadd, assign, or None for a random one at each object."""
    cls = classes()[n['k']]
    r = route or (rng.choice(['ctor', 'ctor', 'append', 'insert', 'extend', 'setter', 'iadd',
                              'late']) if rng else 'ctor')
    kids = [build(x, rng, route) for x in n.get('ch') or []]
    mds = [build(x, rng, route) for x in n.get('md') or []]
    kw = {}
    if n['k'] != 'mc':
        if n.get('id') is not None:
            kw['id'] = n['id']
        if n.get('type') is not None:
            kw['type'] = n['type']
    if n.get('nsmap') is not None:
        kw['nsmap'] = dict(n['nsmap'])
    if n.get('ns') is not None:
        kw['namespace'] = n['ns']
    attrs = dict(n.get('attrs') or {})
    if n['k'] in ('tier', 'item') and rng and rng.random() < 0.5 and \
            not (attrs.get('segmentation') and
                 (attrs.get('content') or attrs.get('alignment'))):
        for ra in REFATTRS:
            if ra in attrs:
                kw[ra] = attrs.pop(ra)
    kw['attributes'] = attrs
    if 'text' in n and n['text'] is not None:
        kw['text'] = n['text']
    late = {}
    if r == 'late':
        late = {k: kw.pop(k) for k in ('id', 'type', 'text', 'attributes', *REFATTRS) if k in kw}
    pos = []
    if n['k'] == 'mc':
        pos = [n['name']]
    if r == 'ctor':
        if kids or n['k'] != 'item':
            kw[KIDS[n['k']]] = kids if kids else None
        if mds:
            kw['metadata'] = mds
        return cls(*pos, **kw)
    obj = cls(*pos, **kw)
    for k, v in late.items():
        setattr(obj, k, v)
    if n['k'] == 'item':
        return obj
    if mds:
        if r in ('append', 'late'):
            for m in mds:
                obj.metadata.append(m)
        elif r == 'insert':
            for m in reversed(mds):
                obj.metadata.insert(0, m)
        else:
            obj.metadata = mds
    if r in ('append', 'late'):
        for x in kids:
            obj.append(x)
    elif r == 'insert':
        for x in reversed(kids):
            obj.insert(0, x)
    elif r == 'extend':
        obj.extend(iter(kids))
    elif r == 'setter':
        setattr(obj, KIDS[n['k']], kids)
    elif r == 'iadd':
        obj += kids
    if n['k'] == 'igt':
        obj.refresh_indices()
    return obj


def kind(obj):
    return KIND.get(type(obj).__name__, type(obj).__name__)


def snapshot(obj, scope=True):
    """The content of an object as a spec; nsmap is the effective one."""
    k = kind(obj)
    n = {'k': k, 'attrs': dict(obj.attributes), 'ns': obj.namespace}
    if scope:
        n['nsmap'] = dict(obj.nsmap)
    if k == 'mc':
        n['name'] = obj.name
    n['id'], n['type'] = obj.id, obj.type
    if k in ('item', 'meta', 'mc'):
        n['text'] = obj.text
    if k in ('corpus', 'igt', 'tier'):
        n['md'] = [snapshot(m, scope) for m in obj.metadata]
    if k != 'item':
        n['ch'] = [snapshot(x, scope) for x in obj]
    return n


def expected(n, outer=None, xml=False):
    """The snapshot a correct object for this spec has. xml: after reading it
    from XML, where empty texts are none and scopes are cumulative."""
    outer = {} if outer is None else outer
    m = {'k': n['k'], 'attrs': dict(n.get('attrs') or {}), 'ns': n.get('ns'),
         'id': n.get('id'), 'type': n.get('type')}
    if n.get('nsmap') is None:
        scope = outer
    elif xml:
        scope = dict(outer)
        scope.update(n['nsmap'])
    else:
        scope = n['nsmap']
    m['nsmap'] = dict(scope)
    if n['k'] == 'mc':
        m['name'] = n['name']
    if n['k'] in ('item', 'meta', 'mc'):
        t = n.get('text')
        if xml and t is not None:
            if t == '' or (n['k'] != 'item' and not t.strip()):
                t = None
        m['text'] = t
    if n['k'] in ('corpus', 'igt', 'tier'):
        m['md'] = [expected(x, scope, xml) for x in n.get('md') or []]
    if n['k'] != 'item':
        m['ch'] = [expected(x, scope, xml) for x in n.get('ch') or []]
    return m


def diff(a, b, path='', nsmap='equal'):
    """None, or a description of the first difference between two snapshots.
    nsmap: equal | within (a's declarations are among b's) | ignore"""
    for f in ('k', 'name', 'id', 'type', 'ns', 'text'):
        if a.get(f) != b.get(f):
            return '%s: %s is %s, not %s' % (path or '/', f, short(b.get(f)), short(a.get(f)))
        if a.get(f) is not None and type(a.get(f)) is not type(b.get(f)):
            return '%s: %s is a %s' % (path or '/', f, type(b.get(f)).__name__)
    if a['attrs'] != b['attrs']:
        return '%s: attributes are %s, not %s' % (path or '/', short(b['attrs']),
                                                  short(a['attrs']))
    if nsmap != 'ignore' and 'nsmap' in a and 'nsmap' in b:
        if nsmap == 'equal':
            same = a['nsmap'] == b['nsmap']
        else:
            same = all(b['nsmap'].get(p) == u for p, u in a['nsmap'].items())
        if not same:
            return '%s: prefixes are %s, not %s' % (path or '/', short(b['nsmap']),
                                                    short(a['nsmap']))
    for f in ('md', 'ch'):
        x, y = a.get(f) or [], b.get(f) or []
        for i, (p, q) in enumerate(zip(x, y)):
            d = diff(p, q, '%s/%s[%d]' % (path, p['k'], i), nsmap)
            if d:
                return d
        if len(x) != len(y):
            return '%s: has %d %s, not %d' % (path or '/', len(y),
                                              'metadata' if f == 'md' else 'children', len(x))
    return None


PROBE = 'vf-probe'


def is_parent(container, obj):
    """Does obj report container as the object it belongs to? By the public
    name, and by what it inherits from it."""
    k = kind(obj)
    if k == 'igt' and obj.corpus is not container:
        return False
    if k == 'tier' and obj.igt is not container:
        return False
    if k == 'item' and obj.tier is not container:
        return False
    token = 'probe %x' % id(container)
    container.attributes[PROBE] = token
    try:
        return obj.get_attribute(PROBE, inherit=True) == token
    finally:
        del container.attributes[PROBE]


def check_links(obj, what=''):
    """Every object reports its container as parent; ids find the object."""
    k = kind(obj)
    for md in (obj.metadata if k in ('corpus', 'igt', 'tier') else []):
        require(is_parent(obj, md), '{}metadata {} has the wrong parent', what, md.id)
        check_links(md, what)
    if k == 'item':
        igt = obj.tier.igt if obj.tier is not None else None
        require(obj.igt is igt and obj.corpus is (igt.corpus if igt is not None else None),
                '{}item {} reports another igt or corpus than its tier', what, obj.id)
        return
    if k == 'tier':
        require(obj.corpus is (obj.igt.corpus if obj.igt is not None else None),
                '{}tier {} reports another corpus than its igt', what, obj.id)
    for x in list(obj):
        require(is_parent(obj, x), '{}{} {} in {} has the wrong parent', what, kind(x),
                getattr(x, 'id', None), k)
        if x.id is not None:
            require(obj[x.id] is x and obj.get(x.id) is x,
                    '{}looking up {} in {} finds another object', what, x.id, k)
        check_links(x, what)
