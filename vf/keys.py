"""Key paths (for partitioning and sorting), and corpora in which they matter."""
import re

from . import gen, paths, refmodels


class Ambiguous(Exception):
    """The first match has no value."""


def P(*steps, abs=''):
    r = []
    for s in steps:
        preds = []
        if isinstance(s, tuple):
            s, preds = s[0], [s[1]]
        if s.startswith('//'):
            r.append({'axis': 'desc', 'test': s[2:], 'preds': preds})
        elif s.startswith('@'):
            r.append({'axis': 'attr', 'test': s[1:], 'preds': preds})
        elif s.endswith('()'):
            r.append({'axis': 'func', 'test': s[:-2], 'args': [], 'preds': preds})
        elif s == '..':
            r.append({'axis': 'up', 'preds': preds})
        elif s == '.':
            r.append({'axis': 'self', 'preds': preds})
        else:
            r.append({'axis': 'child', 'test': s, 'preds': preds})
    return {'abs': abs, 'steps': r}


def eq(name, val, op='='):
    return {'path': P(name), 'op': op, 'val': val}


def has(name):
    return {'path': P(name), 'op': None}


def first(doc, n, path):
    """The value of the first match, or None if there is no match; Ambiguous
    if the first match is a text or value that does not exist."""
    last = path['steps'][-1]
    nodes = []
    if last['axis'] in ('func', 'attr'):
        nodes = paths.evaluate(doc, [n], dict(path, steps=path['steps'][:-1])) \
            if len(path['steps']) > 1 or path['abs'] else [n]
    try:
        if len(nodes) > 1 and not all(paths.evaluate(doc, [x], dict(path, abs='', steps=[last]))
                                      for x in nodes):
            raise Ambiguous()
        r = paths.evaluate(doc, [n], path)
    except (refmodels.Missing, RecursionError):
        raise Ambiguous()
    return r[0] if r else None


def numeric(s):
    """The sort key of a text: digit runs are numbers"""
    out = []
    for k, run in enumerate(re.findall(r'\d+|\D+', s)):
        if run.isdecimal():
            if k == 0:
                out.append('')
            out.append(int(run))
        else:
            out.append(run)
    if not out or isinstance(out[-1], int):
        out.append('')
    return out


VALUES = ('a1', 'a2', 'a10', 'a01', 'a', 'A1', 'b', '10', '9', '2', '1', '02', 'x9y10', 'x9y9',
          'x10y1', 'x9', '1.10', '1.9', '-1', '-2', ' 1', '', 'é', 'z', 'ア1', 'ア10', '٣', '12', 'a-1',
          'a-10', '1a', '1b', '1a2', 'B', 'Z9', '~', '00', '0', '100000000000000000000',
          '100000000000000000009', '100000000000000000010', '9007199254740993', '9007199254740992',
          'a0000000000000000000000000000007', 'None')


def value(rng, pool=None):
    if pool and rng.random() < .7:
        return rng.choice(pool)
    return rng.choice(VALUES) if rng.random() < .85 else gen.text(rng, maxlen=20)


def rebound(doc, path):
    """Is a prefix of the path bound to something else below the corpus?"""
    ps = set(s['test'].split(':')[0] for s in path['steps'] if ':' in s.get('test', ''))
    return any(n['nsmap'].get(p) != doc.root['nsmap'].get(p) for n in doc.nodes for p in ps)
