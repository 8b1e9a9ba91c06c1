"""An independent reading of XigtXML, on top of expat only."""
from xml.parsers import expat


class Malformed(Exception):
    pass


class WrongRoot(Exception):
    pass


def parse(data):
    """A tree of dicts with tag, attrs ('{uri}name' keys), nsmap (in scope),
    text (before the first child) and ch; Malformed if it is not well formed."""
    p = expat.ParserCreate(namespace_separator='}')
    p.buffer_text = False
    stack, scopes, root, pending = [], [{}], [], {}

    def q(name):
        return '{' + name if '}' in name else name

    def start_ns(prefix, uri):
        pending[prefix or ''] = uri or ''

    def start(name, attrs):
        scope = dict(scopes[-1])
        scope.update(pending)
        pending.clear()
        scopes.append(scope)
        e = {'tag': q(name), 'attrs': {q(k): v for k, v in attrs.items()}, 'nsmap': scope,
             'text': '', 'ch': []}
        if stack:
            stack[-1]['ch'].append(e)
        else:
            root.append(e)
        stack.append(e)

    def end(name):
        stack.pop()
        scopes.pop()

    def chars(s):
        if stack and not stack[-1]['ch']:
            stack[-1]['text'] += s

    p.StartNamespaceDeclHandler = start_ns
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    try:
        p.Parse(data, True)
    except (expat.ExpatError, UnicodeError, LookupError, ValueError) as e:
        raise Malformed(str(e))
    return root[0]


def _split(tag):
    if tag.startswith('{'):
        return tuple(tag[1:].split('}', 1))
    return None, tag


def _common(e, k):
    a = dict(e['attrs'])
    n = {'k': k, 'id': a.pop('id', None), 'type': a.pop('type', None), 'attrs': a,
         'ns': _split(e['tag'])[0], 'nsmap': e['nsmap']}
    return n


def _blank(t):
    return t if t.strip() else None


def _mc(e):
    ns, name = _split(e['tag'])
    return {'k': 'mc', 'name': name, 'ns': ns, 'attrs': dict(e['attrs']), 'id': None,
            'type': None, 'nsmap': e['nsmap'], 'text': _blank(e['text']),
            'ch': [_mc(x) for x in e['ch']]}


def _meta(e):
    n = _common(e, 'meta')
    n['text'] = _blank(e['text'])
    n['ch'] = [_mc(x) for x in e['ch']]
    return n


def _metadata(e):
    n = _common(e, 'metadata')
    n['ch'] = [_meta(x) for x in e['ch'] if x['tag'] == 'meta']
    return n


def _mds(e):
    return [_metadata(x) for x in e['ch'] if x['tag'] == 'metadata']


def _item(e):
    n = _common(e, 'item')
    n['text'] = e['text'] or None
    return n


def _tier(e):
    n = _common(e, 'tier')
    n['md'] = _mds(e)
    n['ch'] = [_item(x) for x in e['ch'] if x['tag'] == 'item']
    return n


def _igt(e):
    n = _common(e, 'igt')
    n['md'] = _mds(e)
    n['ch'] = [_tier(x) for x in e['ch'] if x['tag'] == 'tier']
    return n


def read(data):
    """The snapshot (see model.py) of the corpus that a document denotes."""
    e = parse(data)
    if e['tag'] != 'xigt-corpus':
        raise WrongRoot(e['tag'])
    n = _common(e, 'corpus')
    n['md'] = _mds(e)
    n['ch'] = [_igt(x) for x in e['ch'] if x['tag'] == 'igt']
    return n


def indentation(doc, indent):
    """None, or where the white space between the elements of doc is not as asked for: none at all,
    or each on a line of its own, indented by its depth. Elements with text of their own are left
    out, with all they contain."""
    from xml.parsers import expat
    stack = []      # [children, text since the last tag, mixed]
    bad = []

    def check(depth, text, what):
        want = '' if indent is None else '\n' + ' ' * (indent * depth)
        if text != want and not bad and not any(x[2] for x in stack):
            bad.append('%s: %r instead of %r' % (what, text, want))

    def start(name, attrs):
        if stack:
            top = stack[-1]
            text, top[1] = top[1], ''
            if text.strip():
                top[2] = True
            check(len(stack), text, 'before <%s>' % name)
            top[0] += 1
        stack.append([0, '', False])

    def end(name):
        children, text, mixed = stack[-1]
        if children:
            check(len(stack) - 1, text, 'before </%s>' % name)
        stack.pop()

    def chars(s):
        if stack:
            stack[-1][1] += s

    p = expat.ParserCreate()
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.Parse(doc.encode('utf-8') if isinstance(doc, str) else doc, True)
    return bad[0] if bad else None
