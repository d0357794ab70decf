"""Model checking of the specification itself: the steps of Steps.tla interleaved (Deckard.tla), the life of a process (Life.tla)."""
import json
import fam, scen, vlib


def states(ctx, name, rc, n):
    ctx.cov['states'] += n[0]
    ctx.cov['transitions'] += n[1]
    ctx.parts['design ' + name] = dict(ctx.parts.get('design ' + name, {}), distinct=n[0], generated=n[1])


def part(ops, starts, quick=(3, 2, 1, False), thorough=(4, 2, 1, True)):
    """Every interleaving of the backend calls of any `depth` operations on `procs` workers, with failed calls, crashes, cache loss."""
    def f(ctx):
        depth, procs, faults, lose = ctx.pick(quick, thorough)
        cfg = ctx.path('design.json')
        json.dump({'hdr': fam.hdr(), 'ops': [scen.OPS[x] for x in ops.split()], 'starts': [scen.STATES[x] for x in starts.split()],
                   'depth': depth, 'procs': procs, 'faults': faults, 'lose': lose, 'maxnow': 1}, open(cfg, 'w'))
        rc, out, n = vlib.tlc(ctx, 'Deckard.tla', 'Deckard.cfg', {'DCFG': cfg}, ['-workers', '8'], timeout=ctx.pick(200, 700), mem='8g')
        states(ctx, 'model', rc, n)
        ctx.parts['design model'].update(operations=ops, starts=starts, depth=depth, workers=procs, faults=faults, loss=lose)
    f.label = 'design model'
    return f


def life(quick, thorough):
    def f(ctx):
        cfg = ctx.path('life-design.json')
        json.dump({'sets': ctx.pick(quick, thorough), 'runs': ctx.pick(1, 2)}, open(cfg, 'w'))
        rc, out, n = vlib.tlc(ctx, 'Life.tla', 'Life.cfg', {'LCFG': cfg}, ['-workers', '8'], timeout=ctx.pick(200, 700), mem='8g')
        states(ctx, 'of a process', rc, n)
    f.label = 'design of a process'
    return f
