"""C11: rewriting a reference expression preserves what it denotes."""
from .. import gen, refmodels
from ..engine import require, short

ID = 'C11'
RULE = ('a case is a list of reference expressions and id lists, rewritten in every way and '
        'compared by what an independent scanner says they denote; non-trivial: some expression '
        'has several terms or spans')
CASES = {'quick': 5000, 'thorough': 150000}
MIN_EVENTS = {'expressions': 60000, 'id lists': 10000, 'compressible': 10000, 'expandable': 15000}


def generate(rng, i, tier):
    es = []
    for _ in range(20):
        ids = gen.Ids(rng)
        targets = [ids.new(rng.choice('abwmgp')) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        if rng.random() < .25:
            s = rng.choice(['', '', ' ', '\n', '\t ']) if rng.random() < .3 else ''
            for k in range(rng.randint(0, 6) if rng.random() < .99 else 45):
                s += (rng.choice([' ', ' ', '  ', '\t', '\n ']) if k else '') + rng.choice(targets)
            if rng.random() < .2:
                s += rng.choice([' ', '\n', '  '])
            es.append(s)
        else:
            terms = []
            for _ in range(rng.choice([1, 1, 2, 2, 3, 5, 9]) if rng.random() < .99 else rng.choice([20, 45])):
                t = targets[0] if rng.random() < .5 else rng.choice(targets)
                if rng.random() < .6:
                    n = rng.choice([1, 1, 1, 2, 3]) if rng.random() < .995 else rng.choice([12, 45])
                    num = lambda: rng.choice(['%d' % rng.randint(0, 12), '%d' % rng.randint(0, 12),
                                              '-%d' % rng.randint(1, 9), '100',
                                              '%d.%d' % (rng.randint(0, 9), rng.randint(0, 99))])
                    if rng.random() < .8:
                        num = lambda: '%d' % rng.choice([rng.randint(0, 9), rng.randint(10, 120),
                                                         rng.randint(1000, 1000000)]) if rng.random() < .1 else \
                            '%d' % rng.choice([rng.randint(0, 9), rng.randint(10, 120)])
                    sp = '%s:%s' % (num(), num())
                    for _ in range(n - 1):
                        sp += '%s%s:%s' % (rng.choice('+,'), num(), num())
                    t = '%s[%s]' % (t, sp)
                terms.append(t)
            s = terms[0]
            for t in terms[1:]:
                s += rng.choice('+,') + t
            es.append(s)
    return {'es': es}


def merged(tokens, rest):
    """White space at the end may be in several pieces."""
    if rest:
        i = len(tokens)
        while i and not tokens[i - 1].strip():
            i -= 1
        return tokens[:i] + [''.join(tokens[i:])]
    return tokens


def run(case, mon):
    from xigt import ref
    for e in case['es']:
        terms, rest = refmodels.scan(e)
        den = refmodels.denotation(e)
        is_list = all(s is None for _, _, s in terms) and '+' not in e and ',' not in e
        mon.hit('id lists' if is_list else 'expressions')
        x = ref.expand(e)
        c = ref.compress(e)
        require(type(x) is str and type(c) is str, 'the result is no string')
        # an independent expansion and compression
        want_x = ''.join(s + i + ('' if sp is None else '[%s:%s]' % sp) for s, i, sp in den[0]) \
            + den[1]
        require(x == want_x, 'expand({}) is {}, not {}', e, x, want_x)
        want_c = compress(den)
        require(c == want_c, 'compress({}) is {}, not {}', e, c, want_c)
        require(refmodels.denotation(x) == den, 'expand({}) = {} denotes something else', e, x)
        require(refmodels.denotation(c) == den, 'compress({}) = {} denotes something else', e, c)
        require(ref.expand(x) == x and ref.compress(c) == c, 'not idempotent: {}', e)
        require(ref.compress(x) == c and ref.expand(c) == x,
                'expanding and compressing {} do not undo each other', e)
        if c != e:
            mon.hit('compressible')
        if x != e:
            mon.hit('expandable')
        sels = ref.selections(e)
        require(''.join(sels) == e, 'the selections of {} are {}', e, sels)
        want = []
        for s, i, sp in terms:
            if s:
                want.append(s)
            want.append(i + ('' if sp is None else '[%s]' % ''.join(a + b for a, b in sp)))
        if rest:
            want.append(rest)
        require(merged(sels, rest) == want, 'the selections of {} are {}', e, sels)
        bare = [i + ('' if sp is None else '[%s]' % ''.join(a + b for a, b in sp))
                for s, i, sp in terms]
        require(ref.selections(e, keep_delimiters=False) == bare,
                'the selections of {} without delimiters are {}', e,
                ref.selections(e, keep_delimiters=False))
        sp = ref.spans(e)
        require(''.join(sp) == x, 'the spans of {} are {}', e, sp)
        require(ref.spans(e, keep_delimiters=False)
                == [i + ('' if s is None else '[%s:%s]' % s) for _, i, s in den[0]],
                'the spans of {} without delimiters are {}', e,
                ref.spans(e, keep_delimiters=False))
        want = []
        for s, i, p in den[0]:
            if s:
                want.append(s)
            want.append(i + ('' if p is None else '[%s:%s]' % p))
        if rest:
            want.append(rest)
        require(merged(sp, rest) == want, 'the spans of {} are {}', e, sp)
        require(ref.ids(e) == [t[1] for t in terms], 'the ids of {} are {}', e, ref.ids(e))
        require(ref.get_alignment_expression_ids(e) == ref.ids(e), 'the ids differ: {}', e)
        if not is_list and '.' not in ''.join(a + b for _, _, p in terms for a, b in p or []):
            want = []
            for k, (s, i, p) in enumerate(den[0]):
                if s:
                    want.append(s)
                want.append(i if p is None else (i, int(p[0]), int(p[1])))
            got = ref.get_alignment_expression_spans(e)
            require(got == want, 'get_alignment_expression_spans({}) is {}', e, short(got))
        # the lists belong to the caller
        fns = [ref.ids, ref.selections, ref.spans, ref.get_alignment_expression_ids,
               ref.get_alignment_expression_spans, lambda e: ref.selections(e, False),
               lambda e: ref.spans(e, keep_delimiters=False)]
        for fn in fns:
            a = fn(e)
            b = list(a)
            a.append('mine')
            a.reverse()
            require(list(fn(e)) == b, 'the list of {} changes with the one returned before: {}', e,
                    fn(e))
            mon.hit('lists changed by the caller')
        if len(den[0]) > 1:
            mon.state(is_list, len(terms), len(den[0]), len(set(t[1] for t in terms)))


def compress(den):
    out, last, opened = '', None, False
    for s, i, sp in den[0]:
        if sp is not None and opened and i == last:
            out += '%s%s:%s' % (s, sp[0], sp[1])
            continue
        if opened:
            out += ']'
        out += s + i
        opened, last = sp is not None, i
        if opened:
            out += '[%s:%s' % sp
    return out + (']' if opened else '') + den[1]
