"""Changes made to a specification and to the objects built from it alike, after
they have been looked at: what was seen before must not show through."""
import copy

from . import model
from .gen import REFATTRS


def change(g, igt, rng, dangling=True, n=None):
    """Some edits; the objects stay those of the specification, in its order."""
    done = []
    for _ in range(n or rng.randint(1, 4)):
        ks = [k for k, t in enumerate(g['ch']) if t['ch']]
        if not g['ch']:
            break
        k = rng.choice(ks or range(len(g['ch'])))
        t, tier = g['ch'][k], igt[k]
        op = rng.choice(['item', 'item', 'tier', 'text', 'text', 'attr', 'attr', 'move', 'sort',
                         'swap', 'gone', 'new', 'retarget'])
        j = rng.randrange(len(t['ch'])) if t['ch'] else None
        if j is None and op in ('item', 'text', 'attr', 'move', 'gone', 'swap'):
            continue
        if op == 'item':              # another item of the same id
            x = copy.deepcopy(t['ch'][j])
            other(t, x, rng)
            t['ch'][j] = x
            tier[j] = model.build(x, rng)
        elif op == 'tier':            # another tier of the same id
            t = copy.deepcopy(t)
            for x in t['ch']:
                other(t, x, rng)
            g['ch'][k] = t
            igt[k] = model.build(t, rng)
        elif op == 'text':
            x = t['ch'][j]
            x['text'] = rng.choice([None, '', 'other', 'text of another'])
            tier[j].text = x['text']
        elif op == 'attr':
            x = t['ch'][j]
            ra, new = attr(t, x, rng)
            if ra is None:
                continue
            if new is None:
                del x['attrs'][ra]
                del tier[j].attributes[ra]
            else:
                x['attrs'][ra] = tier[j].attributes[ra] = new
        elif op == 'move':
            x = t['ch'].pop(j)
            item = tier[j]
            del tier[j]
            i = rng.randint(0, len(t['ch']))
            t['ch'].insert(i, x)
            tier.insert(i, item)
        elif op == 'swap':            # the items of two ids change places
            i = rng.randrange(len(t['ch']))
            x, y = t['ch'][i], t['ch'][j]
            x['id'], y['id'] = y['id'], x['id']
            items = list(tier)
            tier.clear()
            for x, item in zip(t['ch'], items):
                item.id = x['id']
                tier.append(item)
        elif op == 'gone':
            if not dangling and t['ch'][j]['id']:
                continue
            t['ch'].pop(j)
            del tier[j]
        elif op == 'sort':
            order = list(range(len(g['ch'])))
            rng.shuffle(order)
            g['ch'][:] = [g['ch'][i] for i in order]
            igt.tiers = [list(igt)[i] for i in order]
        elif op == 'new':
            x = {'k': 'item', 'id': 'new.%d' % rng.randint(0, 10 ** 6), 'type': None,
                 'attrs': {}, 'text': rng.choice([None, 'new'])}
            other(t, x, rng)
            i = rng.randint(0, len(t['ch']))
            t['ch'].insert(i, x)
            tier.insert(i, model.build(x, rng))
        elif op == 'retarget':        # the tier refers to what another one refers to
            ra = rng.choice(REFATTRS)
            us = [u for u in g['ch'] if ra in u['attrs']]
            if not us or ra not in t['attrs']:
                continue
            t['attrs'][ra] = tier.attributes[ra] = rng.choice(us)['attrs'][ra]
        done.append(op)
    igt.refresh_indices()
    return done


def attr(t, x, rng):
    ras = [ra for ra in REFATTRS if ra in x['attrs']]
    if not ras:
        return None, None
    ra = rng.choice(ras)
    pool = [y['attrs'][ra] for y in t['ch'] if ra in y['attrs']]
    return ra, rng.choice(pool) if rng.random() < .8 else None


def other(t, x, rng):
    """Make it differ: its text, or what it refers to"""
    if rng.random() < .6:
        x['text'] = rng.choice([None, 'replaced', 'changed text', ''])
    ra, new = attr(t, x, rng)
    if ra is not None and rng.random() < .5:
        if new is None:
            del x['attrs'][ra]
        else:
            x['attrs'][ra] = new
