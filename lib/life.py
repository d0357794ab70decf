"""One server process: plans generated from Life.tla (what is kept waiting, when it is released, when the process is
signalled) replayed on the real server binary; the recorded lives are checked by LifeTrace.tla."""
import itertools, json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib, seqfam
from vlib import Broken

TASKS = {'unlock': 'UNLOCK', 'timeout': 'TIMEOUT', 'metrics': 'METRICS', 'recovery': 'UPDATE', 'max': 'MAX_ELEMENTS', 'ttl': 'TTL'}
EXCL = ['recovery', 'max', 'ttl']
POINTS = {'unlock': ['scan', 'scan2', 'script'], 'timeout': ['scan', 'script'], 'metrics': ['distinct', 'oldest', 'count'],
          'recovery': ['get', 'run', 'last', 'set', 'getbp', 'page', 'script'], 'ttl': ['find', 'delete'], 'max': ['find', 'count', 'ids', 'delete']}
FIRST = {'unlock': 'scan', 'timeout': 'scan', 'metrics': 'distinct', 'recovery': 'get', 'ttl': 'find', 'max': 'find'}
ALLP = [(t, k) for t in POINTS for k in POINTS[t]]
FAST = 20


def st(op, p='', n=0, k=''):
    return {'op': op, 'p': p, 'n': n, 'k': k}


def scen(steps, setup=None, delays=None, fails=False, env=None):
    d = dict({t: FAST for t in TASKS}, **(delays or {}))
    s = dict({'qu': 3, 'qo': 3, 'qt': 3, 'qm': 3, 'qv': 0, 'rec': 0}, **(setup or {}))
    e = {f'DECKARD_HOUSEKEEPER_TASK_{TASKS[t]}_DELAY': f'{v}ms' for t, v in d.items()}
    e.update(env or {})
    return {'setup': s, 'steps': steps, 'env': e, 'c': {'delay': d, 'full': 200, 'plain': not fails, 'qv': s['qv']}}


def pat(t, k):
    return t if t in ('audit', 'trace') else f'{t}:{k}'


def plans(ctx, sets):
    """Every order in which the environment can act for each set of calls kept waiting."""
    f = ctx.path('life-plan.json')
    json.dump({'sets': sets, 'runs': 1}, open(f, 'w'))
    rc, out, n = vlib.tlc(ctx, 'Life.tla', 'LifePlan.cfg', {'LCFG': f}, ['-workers', '4'])
    ctx.cov['states'] += n[0]
    ctx.cov['transitions'] += n[1]
    return [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"PLAN ')]


def concretize(p, settle=60):
    hs = p['want']
    later = ('audit', 'trace', 'req')
    steps = [st('hold', pat(t, k)) for t, k in hs if t not in later]
    steps += [st('start'), st('ready')]
    late = [st('hold', pat(t, k)) for t, k in hs if t in later]
    rec = any(t == 'recovery' for t, _ in hs)
    for t in TASKS:  # every task has done some work
        if not any(h[0] in EXCL for h in hs) or t not in EXCL:
            if not any(h[0] == t for h in hs):
                steps.append(st('runs', t, 2))
    steps += [st('reqs', '0', 1, 'add')] + late
    for op, t, k in p['plan']:
        if op == 'await':
            steps.append(st('await', pat(t, k)))
        elif op == 'req':
            steps.append(st('req', '1', 3, 'add'))
        elif op == 'sig':
            steps += [st('sig'), st('sleep', n=20)]
        elif op == 'refused':
            steps += [st('refused'), st('sleep', n=settle), st('probe')]
        elif op == 'rel':
            steps += [st('rel', pat(t, k)), st('sleep', n=settle)]
    steps += [st('sleep', n=settle)] + [st('rel', pat(t, k)) for t, k in hs] + [st('reqwait'), st('exit')]
    # a recovery would wait for the task kept waiting, and the shutdown for the recovery
    alone = {'recovery': 3600000} if any(t in ('max', 'ttl') for t, _ in hs) else {}
    return scen(steps, {'rec': 1, 'qv': 5} if rec else {}, alone)


def shutdowns(ctx):
    """Every pair of points at which work may be when the process is signalled."""
    one = [[h] for h in ALLP + [('req', 'storage'), ('req', 'cache'), ('audit', 'audit'), ('trace', 'trace')]] + [[]]
    pairs = [list(x) for x in itertools.combinations(ALLP + [('req', 'storage'), ('req', 'cache'), ('audit', 'audit'), ('trace', 'trace')], 2)
             if x[0][0] != x[1][0] and sum(h[0] in EXCL for h in x) < 2]
    trip = [[('recovery', r), ('req', 'storage'), (t, k)] for r in ('set', 'page', 'script') for t, k in ALLP if t not in EXCL]
    trip += [[(t, k), ('req', q), (z, z)] for t, k in ALLP for q in ('storage', 'cache') for z in ('audit', 'trace')]
    ctx.rng.shuffle(pairs)
    ctx.rng.shuffle(trip)
    key = [p for p in pairs if ('req', 'storage') in p]
    sets = one + key + [p for p in pairs if p not in key][:ctx.pick(30, 10000)] + trip[:ctx.pick(10, 10000)]
    ps = plans(ctx, sets)
    # with the signal before the last release first: they say more
    late = [p for p in ps if [x[0] for x in p['plan']][-1:] == ['rel'] or any(x[0] == 'refused' for x in p['plan'])]
    rest = [p for p in ps if p not in late]
    ctx.rng.shuffle(late), ctx.rng.shuffle(rest)
    sel = late[:ctx.pick(200, 3000)] + rest[:ctx.pick(30, 600)]
    ctx.parts['plans'] = {'points': len(ALLP) + 4, 'sets of calls kept waiting': len(sets), 'plans': len(ps), 'run': len(sel)}
    out = [concretize(p) for p in sel]
    out += [scen([st('start'), st('accepting'), st('sig', k=sg), st('exit')]) for sg in ('int', 'quit', 'term') for _ in range(ctx.pick(12, 60))]
    for sg in ('int', 'quit', 'term'):
        out.append(scen([st('start'), st('ready'), st('runs', 'unlock', 2), st('sig', k=sg), st('exit')]))
    return out


def tasks(ctx):
    """Mutual exclusion, intervals and persistence of the periodic tasks."""
    out = []
    go = [st('start'), st('ready')]

    def rest(n=2):
        return [st('runs', t, n) for t in TASKS]
    for t, k in ALLP:
        rec = {'rec': 1, 'qv': 5} if t == 'recovery' else {}
        out.append(scen([st('hold', pat(t, k))] + go + [st('await', pat(t, k)), st('sleep', n=150), st('rel', pat(t, k))] + rest() + [st('sig'), st('exit')], rec))
        for n in ctx.pick((1,), (1, 2, 5)):
            out.append(scen([st('fail', pat(t, k), n)] + go + rest(n + 2) + [st('sig'), st('exit')], rec, fails=True))
    # one held after another, and failures together with a held call
    pairs = [(a, b) for a in ALLP for b in ALLP if a[0] != b[0] and a[0] in EXCL]
    ctx.rng.shuffle(pairs)
    for a, b in pairs[:ctx.pick(40, 400)]:
        rec = {'rec': 1, 'qv': 5} if 'recovery' in (a[0], b[0]) else {}
        if b[0] in EXCL:
            steps = [st('hold', pat(*a)), st('fail', pat(*b), 2)] + go + [st('await', pat(*a)), st('sleep', n=120), st('rel', pat(*a))]
        else:
            steps = [st('hold', pat(*a)), st('hold', pat(*b))] + go + [st('await', pat(*a)), st('await', pat(*b)), st('sleep', n=80), st('rel', pat(*b)), st('sleep', n=60), st('rel', pat(*a))]
        out.append(scen(steps + rest() + [st('sig'), st('exit')], rec, fails=True))
    # intervals: each task alone at its own pace
    for t in TASKS:
        others = [x for x in TASKS if x != t]
        out.append(scen(go + [st('runs', x, 8) for x in others] + [st('sig'), st('exit')], delays={t: 3600000}))
        out.append(scen(go + [st('runs', t, 4), st('sig'), st('exit')], delays={t: 120}))
        out.append(scen(go + [st('runs', t, 6), st('sig'), st('exit')], delays={x: 3600000 for x in others}))
    out.append(scen(go + rest(ctx.pick(15, 80)) + [st('sig'), st('exit')], delays={t: 5 for t in TASKS}))
    ctx.parts['tasks'] = {'processes': len(out)}
    return out


def audits(ctx):
    """Numbers of events around the batch size, with the audit store slow or failing, shut down at any moment."""
    out = []
    go = [st('start'), st('ready')]
    slow = {t: 3600000 for t in TASKS}
    r = ctx.rng
    for n in [0, 1, 2, 199, 200, 201, 399, 400, 401, 999]:
        out.append(scen(go + ([st('reqs', '0', n, 'add')] if n else []) + [st('sig'), st('exit')], delays=slow))
    for _ in range(ctx.pick(60, 800)):
        pre, mid, end = [], [], []
        if r.random() < .5:
            pre.append(st('hold', 'audit'))
        if r.random() < .4:
            pre.insert(0, st('fail', 'audit', r.randint(1, 3)))
        for i in range(r.randint(1, 6)):
            mid.append(st(r.choice(['reqs', 'reqs', 'req']), str(r.randint(0, 1)), r.choice([1, 3, 50, 120, 199, 200, 201, 333]), 'add'))
        for i, x in enumerate(mid):  # concurrent requests have queues of their own
            if x['op'] == 'req':
                x['p'] = f'c{i}'
        if r.random() < .3:
            pre.append(st('hold', 'req:' + r.choice(['storage', 'cache'])))
            mid.append(st('req', 'h', r.choice([1, 200, 201]), 'add'))
            mid = [x for x in mid if x['op'] == 'req']
            end.append(st('rel', pre[-1]['p']))
        if any(x['op'] == 'hold' and x['p'] == 'audit' for x in pre):
            end.append(st('rel', 'audit'))
        r.shuffle(end)
        tail = [st('sig')]
        for e in end:
            tail += [st('sleep', n=r.choice([0, 5, 40])), e]
        if r.random() < .3:
            tail.insert(r.randrange(len(tail)), st('sleep', n=r.choice([1, 5, 20])))
        out.append(scen(pre + go + mid + tail + [st('reqwait'), st('exit')], r.choice([{}, {'rec': 1, 'qv': 5}, {'rec': 1, 'qv': 250}]), delays=r.choice([{}, slow]), fails=True))
    # everything the tasks record, released while the process ends
    for t, k in ALLP:
        out.append(scen([st('hold', pat(t, k))] + go + [st('await', pat(t, k)), st('reqs', '0', 3, 'add'), st('sig'), st('sleep', n=r.choice([1, 10, 40])), st('rel', pat(t, k)), st('exit')],
                        {'rec': 1, 'qv': 5} if t == 'recovery' else {}))
    ctx.parts['audit'] = {'processes': len(out)}
    return out


def server(ctx):
    if not getattr(ctx, 'srvbin', None):
        ctx.srvbin = vlib.build(ctx, what='server', pkg='./internal/cmd/deckard')
    return ctx.srvbin


def record(ctx, name, scens, par=8):
    d, b = seqfam.drv(ctx), server(ctx)
    for i, s in enumerate(scens):
        s['id'] = i
    files = []

    def one(ich):
        i, ch = ich
        base = ctx.path(f'life-{name}-{i}')
        with open(base + '.in', 'w') as f:
            for s in ch:
                f.write(json.dumps(s) + '\n')
        vlib.run_drv(ctx, d, 'life', '-', base + '.in', base + '.out', extra=('-bin', b, '-base', str(i * 2000 + (os.getpid() * 37) % 1500)), timeout=700)
        return base + '.out'
    with ThreadPoolExecutor(par) as ex:
        files = list(ex.map(one, enumerate(c for c in vlib.chunks(scens, par) if c)))
    out = []
    for f in files:
        for l in open(f):
            r = json.loads(l)
            if r['fail']:
                raise Broken(f"server did not start: {r['fail']}")
            out.append(r)
    return out


KEEP = {'cmd': ('t', 'kind', 'q', 'first', 'held'), 'bulk': ('es', 'n', 'bad', 'held')}


def judge(ctx, name, scens, recs):
    f = ctx.path(f'life-{name}.tr')
    with open(f, 'w') as o:
        for r in recs:
            o.write(json.dumps({'id': r['id'], 'c': scens[r['id']]['c'], 'ev': r['ev'], 'fin': r['fin']}) + '\n')
    return vlib.validate(ctx, [('-', f, len(recs))], 'LifeTrace.tla', 'LifeTrace.cfg', focus=False)


def bads(ctx, name, scens):
    recs = record(ctx, name, scens)
    vs = judge(ctx, name, scens, recs)
    by = {r['id']: r for r in recs}
    return [(v, by[v['id']]) for v in vs], vs


def part(gen, design=None):
    def f(ctx):
        scens = gen(ctx)
        got, vs = bads(ctx, gen.__name__, scens)
        ctx.cov['traces_validated_against_impl'] += len(vs)
        ctx.parts[gen.__name__ + ' lives'] = {'events': sum(v['n'] for v in vs), 'inconclusive': sum(v['amb'] for v in vs)}
        r = got[len(got) // 2][1]
        ctx.cov['samples'].append({'steps': scens[r['id']]['steps'], 'events': [{k: v for k, v in e.items() if k not in ('es', 'ms', 'fail')} for e in r['ev'][:20]]})
        for v, r in got:
            mine = [w for p, w in v['bad'] if p == ctx.prop]
            if not mine or len(ctx.bad) >= 3:
                continue
            b = {'kind': 'life', 'scen': scens[r['id']], 'what': '; '.join(mine) + ' ' + str(r.get('err', ''))[-300:], 'events': [e for e in r['ev'] if e['k'] != 'bulk'][-60:]}
            if sum(bool(replay(ctx, b)) for _ in range(3)) >= 1:
                ctx.bad.append(b)
    f.label = 'lives of the server process: ' + gen.__name__
    return f


def replay(ctx, b):
    got, _ = bads(ctx, 'replay', [json.loads(json.dumps(b['scen']))])
    return [w for v, _ in got for p, w in v['bad'] if p == ctx.prop]
