"""Starts of the server process: every configuration and every way its backends can answer (Boot.tla), replayed on the real binary."""
import json, os
import vlib, seqfam, design, life


def plans(ctx):
    rc, out, n = vlib.tlc(ctx, 'Boot.tla', 'Boot.cfg', {}, ['-workers', '8'], timeout=300, mem='4g')
    design.states(ctx, 'of a start', rc, n)
    return [json.loads(json.loads(l)[5:]) for l in sorted({l for l in out.splitlines() if l.startswith('"PLAN ')})]


def judge(ctx, name, scens):
    b = ctx.path('boot-' + name)
    with open(b + '.in', 'w') as f:
        for i, s in enumerate(scens):
            f.write(json.dumps(dict(s, id=str(i))) + '\n')
    vlib.run_drv(ctx, seqfam.drv(ctx), 'boot', '-', b + '.in', b + '.out', extra=('-bin', life.server(ctx), '-base', str((os.getpid() * 37) % 15000)), timeout=800)
    return vlib.validate(ctx, [('-', b + '.out', len(scens))], 'BootTrace.tla', 'BootTrace.cfg', focus=False)


def part(ctx):
    ps = plans(ctx)
    ps = [p for p in ps for _ in range(ctx.pick(1, 4))]
    vs = judge(ctx, 'all', ps)
    ctx.cov['traces_validated_against_impl'] += len(vs)
    ctx.cov['samples'].append(ps[len(ps) // 2])
    ctx.parts['starts'] = {'processes': len(ps), 'attempts': sum(v['n'] - 1 for v in vs)}
    for v in [v for v in vs if v['bad']][:3]:
        b = {'kind': 'boot', 'scen': ps[int(v['id'])], 'what': '; '.join(w for _, w in v['bad']) + ' ' + json.dumps(ps[int(v['id'])])}
        if replay(ctx, b):
            ctx.bad.append(b)


part.label = 'starts of the process'


def replay(ctx, b):
    return [w for v in judge(ctx, 'replay', [b['scen']]) for _, w in v['bad']]
