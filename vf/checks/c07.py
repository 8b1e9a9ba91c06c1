"""C07: containers stay consistent between position and identifier."""
from .. import containers

ID = 'C07'
RULE = ('a case is a kind of container and a history of operations on it, compared with a plain '
        'list after every step; non-trivial: at least three operations')
CASES = {'quick': 9000, 'thorough': 250000}
MIN_EVENTS = {'operations': 80000, 'rejected': 3000, 'setstr': 500, 'assignself': 500,
              'swapids': 500, 'stale-pop': 500}


def generate(rng, i, tier):
    return containers.generate(rng, i, .15, 30 if tier == 'quick' else 60)


def run(case, mon):
    containers.run(case, mon, deep=False)
