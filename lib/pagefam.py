"""The metrics page: every setting of Page.tla, with histories generated from it, on the real server binary."""
import json, os
import vlib, seqfam, design, life

PAGES = [{'k': 'settle'}, {'k': 'page', 'want': 'text'}, {'k': 'page', 'want': 'om'}, {'k': 'page', 'want': 'other'}]


def plans(ctx):
    rc, out, n = vlib.tlc(ctx, 'Page.tla', 'Page.cfg', {}, ['-workers', '8'], timeout=300, mem='4g')
    design.states(ctx, 'of the metrics page', rc, n)
    ps = [json.loads(json.loads(l)[5:]) for l in sorted({l for l in out.splitlines() if l.startswith('"PLAN ')})]
    hs = [p['hist'] for p in ps if 'hist' in p]
    vs = [p['v'] for p in ps if 'v' in p]
    out = []
    for v in vs * ctx.pick(1, 4):
        ops = ctx.rng.choice(hs)
        out.append({'v': v, 'ops': ops + PAGES})
    v0 = next(v for v in vs if v['enabled'] and not v['path'] and v['om'] and not v['attrs'] and not v['name'] and not v['set'] and not v['busy'])
    for _ in range(ctx.pick(16, 200)):
        h = [o for h in ctx.rng.sample(hs, 5) for o in h]
        out.append({'v': v0, 'ops': h[:7] + PAGES[:2] + h[7:] + PAGES})
    return out


def judge(ctx, name, scens):
    b = ctx.path('page-' + name)
    with open(b + '.in', 'w') as f:
        for i, s in enumerate(scens):
            f.write(json.dumps(dict(s, id=str(i))) + '\n')
    vlib.run_drv(ctx, seqfam.drv(ctx), 'page', '-', b + '.in', b + '.out', extra=('-bin', life.server(ctx), '-base', str((os.getpid() * 37) % 15000)), timeout=800)
    return vlib.validate(ctx, [('-', b + '.out', len(scens))], 'PageTrace.tla', 'PageTrace.cfg', focus=False)


def part(ctx):
    ps = plans(ctx)
    vs = judge(ctx, 'all', ps)
    ctx.cov['traces_validated_against_impl'] += len(vs)
    ctx.cov['samples'].append(ps[len(ps) // 2])
    ctx.parts['metrics page'] = {'processes': len(ps), 'events': sum(v['n'] for v in vs)}
    for v in [v for v in vs if v['bad']][:3]:
        b = {'kind': 'page', 'scen': ps[int(v['id'])], 'what': '; '.join(w for _, w in v['bad']) + ' ' + json.dumps(ps[int(v['id'])])}
        if replay(ctx, b):
            ctx.bad.append(b)


part.label = 'metrics page'


def replay(ctx, b):
    return [w for v in judge(ctx, 'replay', [b['scen']]) for _, w in v['bad']]
