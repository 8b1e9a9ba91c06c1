"""Independent models of reference expressions and graphs (no use of xigt.ref)."""

LETTERS = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')


def idchar(c):
    return c in '-._' or c.isalnum()


def scan(expr):
    """The terms of an expression: [(separator, id, [(separator, span)] or None)],
    and what is left at the end."""
    terms, i, sep = [], 0, ''
    n = len(expr)
    while i < n:
        if expr[i] in LETTERS:
            j = i
            while j < n and idchar(expr[j]):
                j += 1
            ident = expr[i:j]
            spans = None
            if j < n and expr[j] == '[':
                k = expr.index(']', j)
                spans, s, cur = [], '', ''
                for c in expr[j + 1:k] + '\0':
                    if c.isdigit() or c in ':-.':
                        cur += c
                    else:
                        spans.append((s, cur))
                        s, cur = c, ''
                j = k + 1
            terms.append((sep, ident, spans))
            sep = ''
            i = j
        else:
            sep += expr[i]
            i += 1
    return terms, sep


def ids(expr):
    return [t[1] for t in scan(expr or '')[0]]


def denotation(expr):
    """The sequence of separators, ids and spans."""
    terms, rest = scan(expr)
    r = []
    for sep, i, spans in terms:
        if spans is None:
            r.append((sep, i, None))
        else:
            for s, (a, b) in zip([sep] + [x[0] for x in spans[1:]],
                                 [x[1].split(':') for x in spans]):
                r.append((s, i, (a, b)))
    return r, rest


JOIN = {',': ' ', '+': ''}


class Missing(Exception):
    """An id, a tier, or a container is missing."""


def resolve(expr, lookup):
    """lookup: id -> text or None, or raises Missing"""
    out = []
    for sep, i, span in denotation(expr)[0]:
        t = lookup(i) or ''
        out.append(JOIN.get(sep, ''))
        if span:
            a, b = int(span[0]), int(span[1])
            t = t[a:b]
        out.append(t)
    return ''.join(out)


def value(g, tier, item, refattrs=('content', 'segmentation'), memo=None):
    """The text an item of an igt (both specs) stands for."""
    if item.get('text') is not None:
        return item['text']
    for ra in refattrs:
        if ra in item['attrs']:
            return resolve_attr(g, tier, item, ra)
    return None


def resolve_attr(g, tier, item, ra):
    if tier is None or g is None or ra not in tier['attrs']:
        raise Missing('container')
    target = next((t for t in g['ch'] if t.get('id') == tier['attrs'][ra]
                   and t.get('id') is not None), None)
    if target is None:
        raise Missing(tier['attrs'][ra])

    def lookup(i):
        for x in target['ch']:
            if x.get('id') == i:
                return value(g, target, x)
        raise Missing(i)
    return resolve(item['attrs'][ra], lookup)


def referents(attrs, ra):
    return ids(attrs.get(ra, ''))


def referrers(objs, ident, ra):
    """objs: [(id, attrs)] in order; the ids of those that refer to ident"""
    return [i for i, attrs in objs if i is not None and ident in ids(attrs.get(ra, ''))]


def ancestors(g, tier, items, refattrs):
    """[(tier, refattr, reftier, [items])] as indices of tiers and items"""
    tiers = g['ch']
    t = tier
    r, visited = [], {t}
    while True:
        attrs = tiers[t]['attrs']
        ra = next((x for x in refattrs if x in attrs), None)
        if ra is None:
            return r
        target = ids(attrs[ra])[0]
        u = next(i for i, x in enumerate(tiers) if x.get('id') == target)
        wanted = set()
        for i in items:
            wanted.update(ids(tiers[t]['ch'][i]['attrs'].get(ra, '')))
        found = [k for k, x in enumerate(tiers[u]['ch'])
                 if x.get('id') is not None and x['id'] in wanted]
        r.append((t, ra, u, found))
        if u in visited:
            return r
        visited.add(u)
        t, items = u, found


def descendants(g, tier, items, refattrs, follow):
    tiers = g['ch']
    done, agenda, r = set(), [(tier, items)], []
    while agenda:
        t, its = agenda.pop(0)
        here = set(tiers[t]['ch'][i].get('id') for i in its) - {None}
        by = {}
        for ra in refattrs:
            us = [u for u, x in enumerate(tiers) if x.get('id') is not None
                  and tiers[t]['id'] in ids(x['attrs'].get(ra, ''))]
            if us:
                by[ra] = us
        ras = [ra for ra in refattrs if ra in by]
        if follow == 'first':
            ras = ras[:1]
        for ra in ras:
            if (t, ra) in done:
                continue
            done.add((t, ra))
            for u in by[ra]:
                found = [k for k, x in enumerate(tiers[u]['ch'])
                         if here.intersection(ids(x['attrs'].get(ra, '')))]
                r.append((t, ra, u, found))
                agenda.append((u, found))
    return r


def tier_order(tiers, refattrs):
    """(order, parent, on a cycle): depth-first order of the positions"""
    pos = {t['id']: i for i, t in enumerate(tiers) if t.get('id') is not None}
    parent = {}
    for i, t in enumerate(tiers):
        for k, ra in enumerate(refattrs):
            if ra in t['attrs']:
                r = ids(t['attrs'][ra])
                if r and r[0] in pos:
                    parent[i] = (pos[r[0]], k)
                break
    cyclic = set()
    for i in parent:
        seen, x = [], i
        while x in parent and x not in seen:
            seen.append(x)
            x = parent[x][0]
        if x in seen:
            cyclic.update(seen[seen.index(x):])
    up = {i: p for i, p in parent.items() if i not in cyclic}
    order = []

    def visit(i):
        stack = [i]
        while stack:
            x = stack.pop()
            order.append(x)
            kids = sorted((k, c) for c, (p, k) in up.items() if p == x)
            stack.extend(c for k, c in reversed(kids))
    for i in range(len(tiers)):
        if i not in up:
            visit(i)
    return order, parent, cyclic


# ------------------------------------------------------------ attribute lookup

def scope(chain):
    """chain: the object and its enclosing objects, innermost first"""
    for n in chain:
        if n.get('nsmap') is not None:
            return n['nsmap']
    return {}
