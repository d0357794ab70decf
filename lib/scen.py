"""Concurrent and failing operations: scenarios of a prepared state and a few operations meeting in it."""
import itertools
from fam import *

T2 = dict(dl=2)
# prepared states over the messages a/1, a/2, b/1
STATES = {
    'none': [],
    'cfg': [editq('a', 2)],
    'cfgread': [editq('a', 2), getq('a'), getq('b')],
    'one': [add(m('a', '1', score=3))],
    'two': [add(m('a', '1', score=3), m('a', '2', score=5))],
    'leased': [add(m('a', '1', score=3), m('a', '2', score=5)), pull('a', 1, dl=2)],
    'leased2': [add(m('a', '1', score=3), m('a', '2', score=5), m('b', '1', score=1)), pull('a', 2, dl=2), pull('b', 1, dl=2)],
    'due': [add(m('a', '1', score=3), m('a', '2', score=5)), pull('a', 1, dl=1), adv(1)],
    'due2': [add(m('a', '1', score=3), m('a', '2', score=5), m('b', '1', score=1)), pull('a', 1, dl=1), pull('b', 1, dl=1), adv(1)],
    'locks2': [add(m('a', '1', score=3), m('a', '2', score=5), m('b', '1', score=1), m('b', '2', score=4)), pull('a', 2), pull('b', 2), ack('a', '1', lock=1, score=6), nack('a', '2', lock=1), ack('b', '1', lock=1), nack('b', '2', lock=1, score=2), adv(1)],
    'over2': [editq('a', 1), editq('b', 1), add(m('a', '1', score=3, ttl=2), m('a', '2', score=5, ttl=4), m('b', '1', ttl=3), m('b', '2', score=1, ttl=5))],
    'lockack': [add(m('a', '1', score=3), m('a', '2', score=5)), pull('a', 1), ack('a', '1', lock=1, score=6), adv(1)],
    'locknack': [add(m('a', '1', score=3)), pull('a', 1), nack('a', '1', lock=1, score=4), adv(1)],
    'locked': [add(m('a', '1', score=3), m('a', '2', score=5)), pull('a', 2), ack('a', '1', lock=3, score=6), nack('a', '2', lock=3, score=2)],
    'stale': [add(m('a', '1', score=3), m('a', '2', score=5)), drop('storedrop', 'a', '1')],
    'expired': [add(m('a', '1', score=3, ttl=1), m('a', '2', score=5), m('b', '1', score=2, ttl=1)), adv(1)],
    'expleased': [add(m('a', '1', score=3, ttl=1)), pull('a', 1, dl=3), adv(1)],
    'over': [editq('a', 1), add(m('a', '1', score=3, ttl=2), m('a', '2', score=5, ttl=4))],
    'lost': [add(m('a', '1', score=3), m('a', '2', score=5), m('b', '1', score=1)), LOSE],
    'lostexp': [add(m('a', '1', score=3, ttl=1), m('b', '1', score=2, ttl=1), m('a', '2', score=5)), adv(1), LOSE],
    'lostover': [editq('a', 1), editq('b', 1), add(m('a', '1', score=3, ttl=2), m('a', '2', score=5, ttl=4), m('b', '1', score=2)), LOSE],
    'runexp': [add(m('a', '1', score=3, ttl=1), m('b', '1', score=2, ttl=1), m('a', '2', score=5)), adv(1), LOSE, op('recmark')],
    'runover': [editq('a', 1), editq('b', 1), add(m('a', '1', score=3, ttl=2), m('a', '2', score=5, ttl=4), m('b', '1', score=2)), LOSE, op('recmark')],
    'unqueued': [add(m('a', '1', score=3), m('a', '2', score=5)), drop('cachedrop', 'a', '1')],
    'recovering': [add(m('a', '1', score=3)), LOSE, add(m('a', '2', score=5))],
}
OPS = {
    'add': add(m('a', '1', score=7, c=(2, 2, 2, 2))),
    'add3': add(m('a', '3', score=4), m('b', '1', score=4)),
    'pull1': pull('a', 1, dl=2),
    'pull2': pull('a', 2, dl=2),
    'ack': ack('a', '1', score=9, bp=1),
    'ack2': ack('a', '2', score=8),
    'acklock': ack('a', '1', score=9, lock=1),
    'ackrm': ack('a', '1', score=9, rm=True),
    'nack': nack('a', '1', score=8),
    'nacklock': nack('a', '1', score=8, lock=1),
    'rem': rem('a', '1'),
    'rem2': rem('a', '1', '2'),
    'edit1': editq('a', 1), 'edit2': editq('a', 2), 'edit3': editq('a', 3), 'editn': editq('a', -1), 'editb': editq('b', 2), 'getq': getq('a'), 'getqb': getq('b'), 'count': count('a'),
    'timeout': TIMEOUT, 'unlock': UNLOCK, 'ttl': TTL, 'max': MAX, 'recover': RECOVER, 'lists': LISTS,
}


def pairs(states, a, b, after=(), meet=par):
    out = []
    for s, x, y in itertools.product(states, a, b):
        t = STATES[s] + [meet(OPS[x], OPS[y])] + list(after)
        if t not in out:
            out.append(t)
    return out


def pick(ctx, xs, quick, thorough=100000):
    n = ctx.pick(quick, thorough)
    return xs if len(xs) <= n else ctx.rng.sample(xs, n)


# where an operation has something to do: these meetings are never left to chance
APT = {'add': 'none one leased locked stale unqueued lost', 'add3': 'none one', 'pull1': 'one two stale expired', 'pull2': 'two locknack', 'ack': 'leased leased2 due', 'ack2': 'leased2', 'acklock': 'leased leased2',
       'ackrm': 'leased two', 'nack': 'leased leased2', 'nacklock': 'leased', 'rem': 'one leased locked unqueued', 'rem2': 'two leased stale unqueued', 'edit1': 'none cfg', 'edit2': 'none', 'edit3': 'cfgread', 'editn': 'cfgread',
       'getq': 'none cfg', 'count': 'two', 'timeout': 'due due2', 'unlock': 'lockack locknack locks2', 'ttl': 'expired expleased runexp', 'max': 'over over2 runover', 'recover': 'lost lostexp recovering'}


def apt(ctx, xs, quick, thorough=100000):
    """All the apt ones and some of the others."""
    n = ctx.pick(quick, thorough)
    if len(xs) <= n:
        return xs
    a = [x for x in xs if any(o.get('apt') for o in x)]
    if len(a) > n:
        return ctx.rng.sample(a, n)
    rest = [x for x in xs if x not in a]
    return a + ctx.rng.sample(rest, min(len(rest), n - len(a)))


def triples(states, a, b, c, after=(), meet=par):
    return [STATES[s] + [meet(OPS[x], OPS[y], OPS[z])] + list(after) for s, x, y, z in itertools.product(states, a, b, c)]


def faults(states, ops, modes=('fail', 'late', 'crash', 'crashlate'), after=(), again=True):
    """One operation with a failing call, perhaps repeated, then more operations."""
    return [STATES[s] + [dict(flt(OPS[o], md), apt=s in APT.get(o, '').split())] + ([OPS[o]] if again and (i + j) % 2 else []) + list(after)
            for s in states for i, o in enumerate(ops) for j, md in enumerate(modes)]


def histories(ctx, ops, n, depth, name):
    import vlib
    seqs, _ = vlib.generate(ctx, name, ops, hdr(60000, keyset(ops)), 'sim', depth, num=n)
    return seqs


def mixed(ops, last, num=(40, 400), depth=12, tail=4, name='hist'):
    """Generated histories, then operations meeting in the state reached, then some more."""
    def f(ctx):
        out = []
        for h in histories(ctx, ops, ctx.pick(*num), depth, name):
            h = list(h)[:ctx.rng.randrange(2, depth + 1)]
            o = last(ctx.rng)
            out.append(h + (o if isinstance(o, list) else [o]) + [ctx.rng.choice(ops) for _ in range(ctx.rng.randrange(tail + 1))])
        return out
    return f


def anypair(ops):
    ok = [o for o in ops if o['op'] in ('add', 'pull', 'ack', 'nack', 'remove', 'timeout', 'unlock', 'ttl', 'max', 'recover')]
    return lambda rng: par(rng.choice(ok), rng.choice(ok))


def anyfault(ops, modes=('fail', 'late', 'crash', 'crashlate')):
    ok = [o for o in ops if o['op'] in ('add', 'pull', 'ack', 'nack', 'remove', 'timeout', 'unlock', 'ttl', 'max', 'recover', 'get', 'count', 'editq', 'getq')]

    def f(rng):
        o = rng.choice(ok)
        return [flt(o, rng.choice(modes))] + ([o] if rng.random() < .6 else [])
    return f
