"""Writes the corpus of a spec as XML in many different ways."""
import io

from .gen import PREFIXES, URIS, XML_NS

TAG = {'corpus': 'xigt-corpus', 'igt': 'igt', 'tier': 'tier', 'item': 'item',
       'metadata': 'metadata', 'meta': 'meta'}


class Writer:
    def __init__(self, rng, plain=False, ascii_only=False, entities=()):
        self.rng, self.plain, self.ascii = rng, plain, ascii_only
        self.entities = entities
        self.out = []
        self.ends = []       # offset (in characters) after each igt

    def p(self, x):
        return not self.plain and self.rng.random() < x

    def esc(self, s, quote=None):
        r = []
        for i, c in enumerate(s):
            o = ord(c)
            if c in '&<':
                r.append({'&': '&amp;', '<': '&lt;'}[c] if not self.p(.3) else '&#%d;' % o)
            elif c == '>':
                r.append('>' if self.p(.3) and not s[:i].endswith(']]') else '&gt;')
            elif quote and c == quote:
                r.append({'"': '&quot;', "'": '&apos;'}[c])
            elif quote and c in '\t\n\r':
                r.append('&#%d;' % o)
            elif c == '\r' or (self.ascii and o > 126):
                r.append(('&#x%X;' if self.p(.5) else '&#%d;') % o)
            elif self.p(.02):
                r.append('&#x%x;' % o)
            elif self.entities and self.p(.1) and c in self.entities:
                r.append('&%s;' % self.entities[c])
            else:
                r.append(c)
        return ''.join(r)

    def text(self, s):
        if s is None or s == '':
            return '<![CDATA[]]>' if self.p(.05) else ''
        if self.p(.15) and not self.ascii and '\r' not in s:
            return '<![CDATA[%s]]>' % s.replace(']]>', ']]]]><![CDATA[>')
        if self.p(.12) and len(s) > 1:
            k = self.rng.randint(0, len(s))
            mid = self.rng.choice(['<!-- <item>&x; -->', '<?pi <item/> ?>', '<!---->',
                                   '<![CDATA[]]>'])
            a, b = s[:k], s[k:]
            return self.esc(a) + mid + self.esc(b)
        return self.esc(s)

    def filler(self, blank='\n'):
        if self.plain:
            return blank
        r = self.rng.random()
        if r < .5:
            return self.rng.choice(['', '\n', '\n  ', ' ', '\t', '\n\n'])
        if r < .85:
            return ''
        return self.rng.choice(['\n<!-- <igt id="i0"> </igt> -->\n', '<?x <tier> ?>',
                                ' <!---->  ', '<!-- ' + 'x' * self.rng.randint(1, 600) + ' -->'])

    def element(self, n, scope):
        rng = self.rng
        k = n['k']
        decls = {}
        if n.get('nsmap'):
            for p, u in n['nsmap'].items():
                if scope.get(p) != u or self.p(.2):
                    decls[p] = u
        if self.p(.03):
            p = rng.choice(PREFIXES)
            if p.isascii() or not self.ascii:
                decls.setdefault(p, rng.choice(URIS))
        sc = dict(scope)
        sc.update(decls)
        self.used = set(decls)
        # the tag
        if k == 'mc' and n['ns']:
            pre = self.prefix(n['ns'], sc, decls, True)
            tag = pre + ':' + n['name'] if pre else n['name']
        else:
            tag = TAG.get(k) or n['name']
            if sc.get(''):
                decls[''] = sc[''] = ''
        attrs = []
        for a, v in (('id', n.get('id')), ('type', n.get('type'))):
            if v is not None:
                attrs.append((a, v))
        for a, v in n['attrs'].items():
            if a.startswith('{'):
                u, a = a[1:].split('}', 1)
                a = self.prefix(u, sc, decls, False) + ':' + a
            attrs.append((a, v))
        attrs += [('xmlns:' + p if p else 'xmlns', u) for p, u in decls.items()]
        if not self.plain:
            rng.shuffle(attrs)
        o = self.out
        o.append('<' + tag)
        for a, v in attrs:
            q = "'" if self.p(.3) else '"'
            o.append(self.rng.choice([' ', ' ', '\n  ', '\t']) if not self.plain else ' ')
            o.append(a + (' = ' if self.p(.05) else '=') + q + self.esc(v, q) + q)
        kids = (n.get('md') or []) + (n.get('ch') or [])
        txt = n.get('text')
        if not kids and not txt and self.p(.5):
            o.append('/>')
        else:
            o.append('>')
            if k in ('item', 'meta', 'mc'):
                o.append(self.text(txt))
            for x in kids:
                # white space must not change a text
                o.append(self.filler() if not (k in ('meta', 'mc') and x is kids[0] and txt)
                         else '')
                self.element(x, sc)
                if x['k'] == 'igt':
                    self.ends.append(len(o))
            if k not in ('item', 'meta', 'mc') or kids:
                o.append(self.filler())
            o.append('</' + tag + ('>' if not self.p(.1) else ' >'))

    def prefix(self, uri, scope, decls, default):
        if uri == XML_NS:
            return 'xml'
        ps = sorted(p for p, u in scope.items() if u == uri and (p or default))
        if ps and not self.p(.1):
            p = self.rng.choice(ps)
            self.used.add(p)
            return p
        while True:
            p = self.rng.choice(PREFIXES + (('',) if default else ()))
            if p not in self.used and not (self.ascii and not p.isascii()):
                decls[p] = scope[p] = uri
                self.used.add(p)
                return p


def document(spec, rng, plain=False, encoding='utf-8', pad=None):
    """(bytes, [end offsets of the igts])"""
    ascii_only = encoding in ('us-ascii', 'latin-1', 'iso-8859-1')
    ents = {}
    doctype = ''
    if not plain and rng.random() < .12:
        ents = {'x': 'ex', 'a': 'long-name', 'е': 'cyr', '猫': 'neko'}
        ents = {c: e for c, e in ents.items() if not ascii_only or c.isascii()}
        doctype = '<!DOCTYPE xigt-corpus [\n' + ''.join(
            '<!ENTITY %s "%s">\n' % (e, c) for c, e in ents.items()) + ']>\n'
    w = Writer(rng, plain, ascii_only, ents)
    head = ''
    if encoding != 'utf-8' or plain or rng.random() < .6:
        head = '<?xml version=%s encoding="%s"%s?>' % (
            rng.choice(['"1.0"', "'1.0'"]), encoding.upper(),
            rng.choice(['', ' standalone="yes"']))
        head += rng.choice(['\n', '', '\n\n'])
    w.out.append(head + doctype)
    if pad is not None:
        w.out.append('<!-- %s -->\n' % ('p' * pad))
    elif not plain:
        w.out.append(rng.choice(['', '', '<!-- c -->\n', '<?p?>']))
    w.element(spec, {})
    if not plain:
        w.out.append(rng.choice(['', '\n', '\n<!-- end -->\n', '<?end?>']))
    chunks = w.out
    s = ''.join(chunks)
    enc = {'utf-16': 'utf-16'}.get(encoding, encoding)
    data = s.encode(enc, 'strict')
    if encoding == 'utf-8' and not plain and rng.random() < .1:
        data = b'\xef\xbb\xbf' + data
    ends = []
    if encoding == 'utf-8' and plain:
        pos = 0
        marks = set(w.ends)
        for i, c in enumerate(chunks, 1):
            pos += len(c.encode('utf-8'))
            if i in marks:
                ends.append(pos)
    return data, ends


class Stream(io.RawIOBase):
    """A binary stream that delivers short reads, may fail at an offset, and
    records how much of it has been read."""

    def __init__(self, data, chunks=None, fail_at=None, error=None):
        self.data, self.pos, self.reads = data, 0, 0
        self.chunks, self.fail_at, self.error = chunks, fail_at, error

    def readable(self):
        return True

    def read(self, n=-1):
        self.reads += 1
        if n is None or n < 0:  # everything up to the end
            if self.fail_at is not None:
                raise self.error
            r, self.pos = self.data[self.pos:], len(self.data)
            return r
        size = n
        if self.chunks:
            size = min(size, self.chunks[self.reads % len(self.chunks)])
        if self.fail_at is not None:
            if self.pos >= self.fail_at:
                raise self.error
            size = min(size, self.fail_at - self.pos)
        r = self.data[self.pos:self.pos + size]
        self.pos += len(r)
        return r

    def readall(self):
        return self.read(-1)

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)
