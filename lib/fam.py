"""Alphabets of operations and the concrete values they stand for."""
import re

BASE, MAXS, HUGE = 1000000, 2000000000, 2000000000
OVER, INF = MAXS + 1, MAXS + 2
ALL6 = ['memory/memory', 'redis/mongo', 'cluster/mongo', 'redis/memory', 'memory/mongo', 'cluster/memory']
ALL4 = ['memory/memory', 'redis/mongo', 'cluster/memory', 'memory/mongo']
TWO = ['memory/memory', 'redis/mongo']
THREE = ['memory/memory', 'redis/mongo', 'cluster/memory']


def m(q, i, score=0, ttl=30, tl=False, c=(1, 1, 1, 1)):
    return {'q': q, 'id': i, 'score': score, 'ttl': ttl, 'tl': tl, 'c': list(c)}


def add(*ms):
    return {'op': 'add', 'msgs': list(ms)}


def pull(q, n=1, min=0, max=0, filt=0, dl=2):
    return {'op': 'pull', 'q': q, 'n': n, 'min': min, 'max': max, 'filt': filt, 'dl': dl}


def ack(q, i, score=0, sub=0, lock=0, bp=0, rm=False, reason='r', op='ack'):
    return {'op': op, 'q': q, 'id': i, 'score': score, 'sub': sub, 'lock': lock, 'bp': bp, 'rm': rm, 'reason': reason}


def nack(q, i, **k):
    return ack(q, i, op='nack', **k)


def rem(q, *ids):
    return {'op': 'remove', 'q': q, 'ids': list(ids)}


def op(name, **k):
    return dict(op=name, **k)


def adv(d):
    return op('adv', d=d)


def count(q):
    return op('count', q=q)


def get(q, i):
    return op('get', q=q, id=i)


def editq(q, n, nil=False):
    return {'op': 'editq', 'q': q, 'n': n, 'nil': nil}


def getq(q):
    return op('getq', q=q)


def drop(which, q, *ids):
    return {'op': which, 'q': q, 'ids': list(ids)}


TIMEOUT, UNLOCK, TTL, MAX, RECOVER, METRICS, LISTS = [op(x) for x in ('timeout', 'unlock', 'ttl', 'max', 'recover', 'metrics', 'lists')]
FLUSH, CFLUSH, LOSE, RESTART = [op(x) for x in ('flush', 'cacheflush', 'losecache', 'restart')]


def par(*ops):
    """Operations run concurrently; every order of their backend calls is tried."""
    return {'op': 'par', 'ps': list(ops)}


def same(*ops):
    """Concurrent requests to one server: its mutexes are scheduled too."""
    return {'op': 'par', 'ps': list(ops), 'same': True}


def free(*ops):
    """Concurrent requests to one server, running undisturbed."""
    return {'op': 'par', 'ps': list(ops), 'free': True}


def flt(o, mode='fail'):
    """An operation one of whose backend calls fails (every one in turn); modes fail, late, crash, crashlate."""
    return {'op': 'flt', 'e': o, 'mode': mode}


def flat(ops):
    for o in ops:
        if o['op'] == 'par':
            yield from o['ps']
        elif o['op'] == 'flt':
            yield o['e']
        else:
            yield o


def drain(q, grid, dl=1):
    return {'op': 'wdrain', 'q': q, 'grid': grid, 'dl': dl}


# ------------------------------------------------------------ concrete values
QNAMES = [
    dict(a='orders', b='orders::eu', c='other'),
    dict(a='q', b='q:1', c='q::1'),
    dict(a='x', b='x:tmp', c='x:lock_ack'),
    dict(a='a*', b='ab', c='a?'),
    dict(a='[ab]', b='a', c='b'),
    dict(a='p::s::t', b='p::', c='p:::x'),
    dict(a='::s', b=':', c='s'),
    dict(a='p::s', b='p::s2', c='p'),
    dict(a='fila é 世界', b='a.b$c', c='A.B$C'),
    dict(a='x:lock_nack', b='x:lock_nack:score', c='x'),
    dict(a='queue' * 40, b='queue' * 40 + '1', c='\\'),
    dict(a='deckard_v1:pool:', b='a\nb', c=' '),
]
PLAINQ = [QNAMES[0], QNAMES[7], QNAMES[8]]
IDS = [
    {'1': 'm1', '2': 'm2', '3': 'm3', '4': 'm4'},
    {'1': '1:x', '2': 'x', '3': ':', '4': '1'},
    {'1': '1', '2': '1e0', '3': '-1', '4': '+inf'},
    {'1': 'id with space', '2': 'é世', '3': 'i' * 300, '4': '*'},
    {'1': '(5', '2': '[', '3': 'a\nb', '4': '{x}'},
]
GRIDS = [
    list(range(1, 21)),
    [0.5, 0.75, 1, 1.25, 2.5, 3.3, 4.4, 5.5, 6.6, 7.7, 8.8, 9.9, 10.1, 11.1, 12.1, 13.1, 14.1, 15.1, 16.1, 17.1],
    [1e-9, 1e-3, 1, 10, 1000, 65536, 1e6, 1e6 + 0.125, 2**31 - 1, 2**31, 2**32, 1e10, 1e11, 1e11 + 1, 1e11 + 2, 1e11 + 3, 1e11 + 4, 1e11 + 5, 1e11 + 6, 1e11 + 7],
]
T0S = [1700000000000, 1234567890123, 1699999999999, 4102444800000, 300000000000]


def conc(rng, scale=60000, queues=None, ids=None, grid=None, subus=None, t0=None, cv=None):
    g = grid if grid is not None else rng.choice(GRIDS)
    t = t0 if t0 is not None else rng.choice(T0S)
    return {'t0': t, 'scale': scale, 'subus': rng.choice([0, 0, 499, 999]) if subus is None else subus, 'grid': g,
            'queues': queues or rng.choice(PLAINQ), 'ids': ids or rng.choice(IDS), 'cv': rng.randrange(3) if cv is None else cv}


def toks(queues):
    return {k: [t for t in re.split('(:)', v) if t] for k, v in queues.items()}


def hdr(scale=60000, keys=(), snap=0, queues=None):
    h = {'ttlu': max(1, 60000 // scale), 'dfl': max(1, 300000 // scale), 'snap': snap, 'keys': [list(k) for k in keys], 'mem': True,
         'toks': toks(queues or QNAMES[0]), 'lab': [], 'any': False, 'refuse': []}
    return h


def keyset(ops):
    ks = set()
    for o in flat(ops):
        if o['op'] == 'add':
            ks |= {(x['q'], x['id']) for x in o['msgs']}
        elif 'id' in o:
            ks.add((o['q'], o['id']))
        elif 'ids' in o:
            ks |= {(o['q'], i) for i in o['ids']}
    return sorted(k for k in ks if k[0] and k[1])


def scores(ops):
    g = {0, MAXS}
    for o in flat(ops):
        for s in [o.get('score', 0)] + [x['score'] for x in o.get('msgs', [])]:
            if 0 < s <= 20 or s > 1000 and s < MAXS:
                g.add(s)
    return g


def refused(queues):
    """Queue symbols whose name only the in-memory cache accepts."""
    return sorted(q for q, n in queues.items() if set(n) & set('{}'))


def epilogue(ops, queues, far=60, light=False):
    """Operations that reveal where every message is: drain, wait, unlock, time out, drain again."""
    now = sum(o.get('d', 0) for o in ops)
    g = sorted(scores(ops) | {BASE + t for t in range(now + 1)} | {BASE + now - s for s in {o.get('sub', 0) for o in flat(ops)} if abs(s) < 1000 and s})
    e = [drain(q, g, 1) for q in queues]
    e += [adv(far), UNLOCK]
    e += [drain(q, sorted(set(g) | {BASE + now + far}), 1) for q in queues]
    e += [adv(1), TIMEOUT] + [drain(q, [0], 1) for q in queues] + [LISTS, count('')]
    return e


def traces(ctx, name, seqs, scale=60000, epi=True, names=None, far=60, fixed=None, snap=0, lab=(), mx=0, any=False, **ck):
    out = []
    for i, ops in enumerate(seqs):
        c = dict(fixed) if fixed else conc(ctx.rng, scale, **dict(ck, queues=ctx.rng.choice(names or PLAINQ)))
        qs = sorted(({k[0] for k in keyset(ops)} | {o['q'] for o in flat(ops) if o.get('q')}) - set(refused(c['queues'])))
        full = list(ops) + (epilogue(ops, qs, far) if epi else [])
        ks = keyset(ops)
        h = hdr(scale, ks, snap, c['queues'])
        h['lab'], h['any'] = list(lab), bool(any)
        out.append({'max': mx, 'seed': ctx.seed, 'id': f'{name}-{i}', 'conc': c, 'ops': full, 'keys': [list(k) for k in ks], 'snap': snap, 'hdr': h})
    return out
