"""Histories with many messages: behaviours of Bulk.tla, replayed and judged by numbers (the sizes at which engines and tasks split their work)."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import vlib, seqfam, fam

SIZES = [1, 99, 100, 101, 500, 999, 1000, 1001, 1999, 2000, 2001, 3000, 3999, 4000, 4001, 5000, 8001]
NAMES = [dict(a='ok', b='ok2', c='many/'), dict(a='x', b='x::1', c='x::9'), dict(a='a b', b='a', c='a:')]
MANY = [300, 999, 1000, 1001, 2100]      # queues with a message each
ZERO = dict(q='', g='', n=0, sc=0, ttl=0, dl=0, lock=0, d=0, extra=0)


def o(op, q='', g='', n=0, **k):
    return dict(ZERO, op=op, q=q, g=g, n=n, **k)


def alphabet(sizes, kinds):
    out = []
    for n in sizes + [13000]:
        if n == 13000:
            out += [o('remove', g[0], g, n, extra=x) for g in ('a1', 'a2', 'b1') for x in (0, 3)] * 3
            continue
        for g, sc in (('a1', 3), ('a2', 7), ('b1', 5)):
            for ttl in (1000, 1000, 2, 3) if 'ttl' in kinds else (1000, 900) if 'max' in kinds else (1000,):
                out.append(o('add', g[0], g, n, sc=sc, ttl=ttl))
        for g in ('a1', 'a2', 'b1'):
            out.append(o('remove', g[0], g, n))
            out.append(o('remove', g[0], g, n, extra=3))
            if n <= 4001:
                for op in ('ack', 'nack'):
                    out += [o(op, g[0], g, n, sc=2), o(op, g[0], g, n, sc=2, lock=1), o(op, g[0], g, n, sc=4, lock=2)]
        if n < 6000:
            out += [o('editq', 'a', n=n), o('editq', 'b', n=n)]
    if 'many' in kinds:
        for n in MANY:
            out.append(o('add', 'c', 'c1', n, sc=3, ttl=1000))
            out.append(o('add', 'c', 'c1', n, sc=5, ttl=3 if 'ttl' in kinds else 1000))
            for op in ('ack', 'nack'):
                out += [o(op, 'c', 'c1', n, sc=2), o(op, 'c', 'c1', n, sc=2, lock=1)]
        out += [o('pull', 'c', n=1, dl=1), o('pull', 'c', n=10, dl=2), o('pull', 'c', n=1, dl=3), o('count'), o('count'), o('lists'), o('lists'), o('cacheflush')]
        out += [o('drain', 'c', dl=2)] * 2
    for n in (1, 999, 1000, 1000, 1000, 5000):
        for q in 'ab':
            out += [o('pull', q, n=n, dl=1), o('pull', q, n=n, dl=2)]
    for q in 'ab':
        out += [o('drain', q, dl=d) for d in (1, 2, 3)]
        out.append(o('count', q))
    out += [o('adv', d=1), o('adv', d=2)] + [o(k) for k in ('timeout', 'unlock', 'ttl', 'max', 'lose', 'recover')]
    return [x for x in out if x['op'] in kinds]


def end(k, many=False):
    q = ['c'] if many else []
    dr = lambda: [o('drain', x, dl=1) for x in ['a', 'b'] + q]
    e = [o('recover')] * k + [o('count', 'a'), o('count', 'b')] + dr() + [o('adv', d=3)]
    return e + [o('unlock')] * (k + 1) + dr() + [o('adv', d=1)] + [o('timeout')] * (k + 2) + dr() + [o('count')] + [o('lists')] * many


ALL = 'add pull drain ack nack timeout unlock ttl max remove lose recover adv count editq many lists'


def judge(ctx, name, scens, combos):
    drv = seqfam.drv(ctx)
    jobs = []
    for c in combos:
        for i, ch in enumerate(vlib.chunks(scens, max(1, vlib.CPUS // len(combos)))):
            b = ctx.path(f'bulk-{name}-{c.replace("/", "_")}-{i}')
            with open(b + '.in', 'w') as f:
                for s in ch:
                    f.write(json.dumps(s) + '\n')
            jobs.append((c, b, len(ch)))
    with ThreadPoolExecutor(vlib.CPUS) as ex:
        list(ex.map(lambda j: vlib.run_drv(ctx, drv, 'bulk', j[0], j[1] + '.in', j[1] + '.out', timeout=800), jobs))
    return vlib.validate(ctx, [(c, b + '.out', n) for c, b, n in jobs], 'BulkTrace.tla', 'BulkTrace.cfg', focus=False)


def part(kinds=ALL, num=(12, 200), depth=(14, 24), sizes=SIZES, combos=('memory/memory', 'redis/mongo', 'cluster/mongo'), cap=13000, w=None):
    ops = alphabet(sizes, kinds.split())

    def run(ctx):
        hs, _ = vlib.generate(ctx, 'bulk', ops, {'cap': cap, 'w': dict({'adv': 1, 'lose': 1, 'add': 3, 'cacheflush': 1}, **(w or {}))}, 'sim', ctx.pick(*depth), num=ctx.pick(*num), module='BulkGen')
        ctx.rng.shuffle(hs)
        ss = [{'id': str(i), 'lab': [ctx.prop], 'ops': h + end(4, 'many' in kinds), 'names': ctx.rng.choice(NAMES), 't0': ctx.rng.choice(fam.T0S), 'scale': 60000} for i, h in enumerate(hs)]
        vs = judge(ctx, 'all', ss, combos)
        ctx.cov['traces_validated_against_impl'] += len(vs)
        ctx.parts['many messages'] = {'behaviours': len(ss), 'combinations': list(combos), 'executions': len(vs), 'events': sum(v['n'] for v in vs), 'given up': sum(1 for v in vs if v['amb']),
                                      'messages added': sum(x['n'] for s in ss for x in s['ops'] if x['op'] == 'add')}
        mine = [dict(v, bad=[b for b in v['bad'] if b[0] == ctx.prop]) for v in vs]
        mine = [v for v in mine if v['bad']]
        for v in mine[:3]:
            s = ss[int(v['id'])]
            b = {'kind': 'bulk', 'scen': s, 'combo': v['combo'], 'what': f"{v['combo']} event {v['at']} ({v['op']}): " + '; '.join(w for _, w in v['bad'])}
            if replay(ctx, b):
                ctx.bad.append(b)
    run.label = 'many messages'
    return run


def replay(ctx, b):
    return [w for v in judge(ctx, 'replay', [b['scen']], [b['combo']]) for p, w in v['bad'] if p == ctx.prop]
