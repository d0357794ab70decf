"""Requests to one server running undisturbed on all cores: the answers and what is left have to be explained by some order of
their backend calls (Trace.tla), and the race detector must not find unsynchronised accesses in the server's code."""
import copy, glob, itertools, os, re
import vlib, fam, scen, seqfam

STACK = re.compile(r'^  (?:Read|Write|Previous read|Previous write) at .*?(?=^\s*$)', re.M | re.S)
ACC = re.compile(r'^\s*(?:Read|Write|Previous read|Previous write|Atomic|Previous atomic)[^\n]*\n((?:  [^\n]*\n)+)', re.M | re.I)


def races(base):
    """Data races between accesses of the server's own code: where -> report."""
    out = {}
    for f in glob.glob(base + '.*'):
        for blk in open(f, errors='replace').read().split('==================')[1:]:
            if 'DATA RACE' not in blk:
                continue
            ws = []
            for st in ACC.findall(blk):
                fr = [l.strip() for l in st.splitlines() if l.strip().startswith('github.com/takenet/deckard/')]
                ws.append(re.sub(r'\(\)$', '', fr[0].split('/')[-1]) if fr and '/internal/verif' not in fr[0] else None)
            if len(ws) >= 2 and all(ws[:2]):
                out.setdefault(' and '.join(sorted(ws[:2])), blk[:3000])
    return out


def traces(ctx, states, groups, runs, num):
    seqs = []
    for g in groups:
        sets = [x.split() for x in g]
        seqs += [scen.STATES[s] + [fam.free(*(scen.OPS[o] for o in os_))] for s, os_ in itertools.product(states.split(), itertools.product(*sets))]
    seqs = scen.pick(ctx, seqs, *num)
    ts = fam.traces(ctx, 'free', seqs, lab=[ctx.prop], mx=ctx.pick(*runs), snap=0)
    ctx.parts.setdefault('families', {})['undisturbed'] = {'behaviours': len(seqs), 'mode': 'given, repeated ' + str(ctx.pick(*runs)) + ' times, race detector on', 'combos': ['memory/memory']}
    return ts


def hunt(ctx, ts, combos):
    if not getattr(ctx, '_racedrv', None):
        ctx._racedrv = vlib.build(ctx, race=True)
    base = ctx.path('race')
    for f in glob.glob(base + '.*'):
        os.unlink(f)
    fs = vlib.replay_seq(ctx, ctx._racedrv, 'free', ts, combos, race=base)
    return fs, races(base)


def part(states, *groups, runs=(6, 60), num=(60, 1000), combos=('memory/memory',)):
    def f(ctx):
        ts = traces(ctx, states, groups, runs, num)
        fs, rs = hunt(ctx, ts, list(combos))
        vs = vlib.validate(ctx, fs) + vlib.died(ctx)
        ctx.cov['traces_validated_against_impl'] += len(vs)
        for w, blk in list(rs.items())[:2]:
            ctx.bad.append({'kind': 'hammer', 'part': [states, groups, runs, num, combos], 'what': 'unsynchronised accesses of concurrent requests: ' + w, 'report': blk})
        byid = {t['id']: t for t in ts}
        for v in [v for v in vs if any(p == ctx.prop for p, _ in v['bad'])]:
            if len(ctx.bad) >= 3:
                break
            t = copy.deepcopy(byid[v['id'].split('~')[0]])
            t['max'] = 2000
            b = {'kind': 'free', 'combo': v['combo'], 'trace': t, 'what': f"{v['combo']}: undisturbed: {v['op']} (event {v['at']}): " + '; '.join(seqfam.why(v, ctx.prop))}
            if freely(ctx, b):
                ctx.bad.append(b)
                break
    f.label = 'undisturbed requests'
    return f


def freely(ctx, b):
    fs = vlib.replay_seq(ctx, seqfam.drv(ctx), 'refree', [copy.deepcopy(b['trace'])], [b['combo']])
    vs = vlib.validate(ctx, fs) + vlib.died(ctx)
    return [w for v in vs for w in seqfam.why(v, ctx.prop)]


def replay(ctx, b):
    if b['kind'] == 'free':
        return freely(ctx, b)
    states, groups, runs, num, combos = b['part']
    return list(hunt(ctx, traces(ctx, states, groups, runs, num), list(combos))[1])
