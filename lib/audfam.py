"""The audit buffer in virtual time: plans of Audit.tla (what is recorded, idle periods, a slow store, the stop) replayed on the real
auditor; the recorded executions are checked by AuditTrace.tla."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib, seqfam, design
from vlib import Broken

BURSTS = [1, 2, 66, 67, 99, 100, 101, 199, 200, 201, 399, 400, 401, 599, 600, 1000]


def model(ctx):
    rc, out, n = vlib.tlc(ctx, 'Audit.tla', 'Audit.cfg', {}, ['-workers', '8'], timeout=600, mem='6g')
    design.states(ctx, 'of the audit buffer', rc, n)


model.label = 'design of the audit buffer'


def plans(ctx):
    rc, out, n = vlib.tlc(ctx, 'Audit.tla', 'AuditPlan.cfg', {}, ['-workers', '8'], mem='6g')
    ctx.cov['states'] += n[0]
    ctx.cov['transitions'] += n[1]
    ps = sorted({l for l in out.splitlines() if l.startswith('"PLAN ')})
    ctx.rng.shuffle(ps)
    return [json.loads(json.loads(p)[5:]) for p in ps]


def concretize(r, p, full):
    """Bursts around the size of a batch or of the whole buffer; nothing moves, or everything does, between the steps."""
    calm = r.choice([1, 1, .5, 0])
    sizes = r.choice([BURSTS, [1, 2, 3], [199, 200, 201], [100, 99, 101, 1], [10001 if full else 1000, 1, 200]])
    out = []
    for op, c in p:
        out.append({'op': op, 'c': c, 'n': r.choice(sizes) if op == 'store' else 0, 'w': r.random() < calm, 'y': r.choice([0, 1, 5, 50, 500])})
        if op == 'hold' and r.random() < .2:
            out.append({'op': 'fail', 'n': r.randint(1, 3), 'c': '', 'w': False, 'y': 0})
    return out


def gen(ctx):
    ps = plans(ctx)
    late = [p for p in ps if any(x[0] == 'store' for x in p[[y[0] for y in p].index('cancel'):])]
    n = ctx.pick(500, 12000)
    sel = late[:n // 2] + ps[:n // 2]
    out = []
    for i, p in enumerate(sel):
        out.append({'clients': ['1', '2'], 'steps': concretize(ctx.rng, p, i % 20 == 0)})
    for k in [1, 100, 199, 200, 201, 400, 401, 9999, 10000, 10200, 10201, 25000]:      # nothing else than one burst and the stop
        for pre in ([], [('hold', '')]):
            out.append({'clients': ['1', '2'], 'steps': [{'op': o, 'c': '', 'n': 0, 'w': True, 'y': 0} for o, _ in pre]
                        + [{'op': 'store', 'c': '1', 'n': k, 'w': bool(k % 2), 'y': 0}, {'op': 'cancel', 'c': '', 'n': 0, 'w': False, 'y': 3}, {'op': 'store', 'c': '2', 'n': 3, 'w': False, 'y': 0}]})
    for d in [1, 1000, 59000, 240000, 299000]:       # recorded again and again within the idle period
        out.append({'clients': ['1', '2'], 'steps': [x for i in range(8) for x in ({'op': 'store', 'c': str(1 + i % 2), 'n': 1, 'w': True, 'y': 0}, {'op': 'sleep', 'c': '', 'n': d, 'w': True, 'y': 0})]
                    + [{'op': 'idle', 'c': '', 'n': 0, 'w': True, 'y': 0}]})
    for i, s in enumerate(out):
        s['id'] = i
    ctx.parts['audit plans'] = {'plans': len(ps), 'executed': len(out)}
    return out


def record(ctx, name, scens, par=8):
    d = seqfam.drv(ctx)

    def one(ich):
        i, ch = ich
        got, k = [], 0
        while ch and k < 6:
            k += 1
            b = ctx.path(f'aud-{name}-{i}-{k}')
            with open(b + '.in', 'w') as f:
                for s in ch:
                    f.write(json.dumps(s) + '\n')
            try:
                p = subprocess.run([d, 'audit', '-in', b + '.in', '-out', b + '.out'], capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                raise Broken('audit driver timed out')
            ls = [json.loads(l) for l in open(b + '.out')] if os.path.exists(b + '.out') else []
            got += ls
            if p.returncode == 0:
                return got
            if len(ls) >= len(ch) or p.returncode not in (2, 3) or not ('panic' in p.stderr or 'STUCK' in p.stderr or 'fatal error' in p.stderr):
                raise Broken('audit driver failed: ' + p.stdout[-1000:] + p.stderr[-3000:])
            bad = ch[len(ls)]
            stuck = p.returncode == 3 or 'deadlock' in p.stderr
            got.append({'id': bad['id'], 'c': bad['clients'], 'ev': [{'k': 'stuck' if stuck else 'panic', 'ms': 0}], 'err': p.stderr[-1500:]})
            ch = ch[len(ls) + 1:]
        return got
    with ThreadPoolExecutor(par) as ex:
        return [r for g in ex.map(one, enumerate(c for c in vlib.chunks(scens, par) if c)) for r in g]


def bads(ctx, name, scens):
    recs = record(ctx, name, scens)
    f = ctx.path(f'aud-{name}.tr')
    with open(f, 'w') as o:
        for r in recs:
            o.write(json.dumps({'id': r['id'], 'c': r['c'], 'ev': r['ev']}) + '\n')
    vs = vlib.validate(ctx, [('-', f, len(recs))], 'AuditTrace.tla', 'AuditTrace.cfg', focus=False)
    by = {r['id']: r for r in recs}
    return [(v, by[v['id']]) for v in vs], vs


def part(ctx):
    scens = gen(ctx)
    got, vs = bads(ctx, 'all', scens)
    ctx.cov['traces_validated_against_impl'] += len(vs)
    ctx.parts['audit executions'] = {'events': sum(v['n'] for v in vs), 'recorded events': sum(e.get('n', 0) for _, r in got for e in r['ev'] if e['k'] == 'e')}
    ctx.cov['samples'].append(scens[len(scens) // 2])
    by = {s['id']: s for s in scens}
    for v, r in got:
        mine = sorted({w for p, w in v['bad'] if p == ctx.prop})
        if not mine or len(ctx.bad) >= 3:
            continue
        b = {'kind': 'audit', 'scen': by[v['id']], 'what': '; '.join(mine) + ' ' + r.get('err', '')[-300:], 'events': r['ev'][-40:]}
        if any(replay(ctx, b) for _ in range(5)):
            ctx.bad.append(b)


part.label = 'audit buffer in virtual time'


def replay(ctx, b):
    got, _ = bads(ctx, 'replay', [json.loads(json.dumps(b['scen']))])
    return [w for v, _ in got for p, w in v['bad'] if p == ctx.prop]
