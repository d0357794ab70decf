"""Settings, clock, time conversions and queue names: histories of Pure.tla replayed on the real functions."""
import copy, itertools, json, os
import vlib, seqfam
from vlib import log

TYPES = {}
RAWS = {'str': ['v1', 'other value', 'MEMORY', 'deckard', 'queue', 'json'], 'bool': ['true', 'false', '0', 'T', 'bad'],
        'int': ['7', '0', '10', '-3', 'bad', '8081', '22022', '4194304'], 'dur': ['3s', '1s', '1m', '0s', 'bad', '5s', '250ms', '1h30m']}


def settings():
    """The settings of the specification (name -> type, aliases), read from it."""
    import re
    out = {}
    for m in re.finditer(r'\("([a-z_.]+)" :> S\("(\w+)", "[^"]*", <<([^>]*)>>\)\)', open(os.path.join(vlib.SPEC, 'Pure.tla')).read()):
        out[m.group(1)] = (m.group(2), [a.strip().strip('"') for a in m.group(3).split(',') if a.strip()])
    return out


def env(n, raw):
    return {'op': 'env', 'name': n, 'raw': raw}


def get(n, t):
    return {'op': 'get', 'name': n, 'typ': t}


def observe(seq, st, start=True):
    """Reads every setting touched so far after each operation.  The environment is fixed when the server starts: variables come first."""
    out, seen = [], {}
    names = {}
    for k, (t, al) in st.items():
        for n in [k] + al:
            names[n] = k
    for o in seq:
        out.append(o)
        if 'name' in o:
            seen[names[o['name']]] = 1
        if o['op'] == 'env':
            out.append({'op': 'reset'})
        out += [get(k, st[k][0]) for k in seen]
    return out


def alphabet(keys, st, raws):
    ops = [{'op': 'reset'}, {'op': 'configure'}]
    for k in keys:
        t, al = st[k]
        for n in [k] + al:
            ops += [env(n, r) for r in raws(t)] + [env(n, '')]
        ops += [{'op': 'set', 'name': k, 'raw': r, 'typ': t} for r in raws(t)[:3]]
    return ops


def config(ctx):
    st = settings()
    out = []
    for k in ctx.pick(['storage.uri'], ['storage.uri', 'mongo.database', 'cache.uri', 'grpc.port', 'housekeeper.enabled', 'housekeeper.task.metrics.delay']):
        ops = alphabet([k], st, lambda t: RAWS[t][:ctx.pick(3, 5)])
        seqs, total = vlib.generate(ctx, 'cfg', ops, {}, 'cover', ctx.pick(4, 5), cap=ctx.pick(1200, 20000), module='PureGen')
        out += [observe(s, st) for s in seqs]
        ctx.parts.setdefault('families', {})['settings ' + k] = {'behaviours': len(seqs), 'of': total}
    ops = alphabet(st, st, lambda t: RAWS[t])
    seqs, total = vlib.generate(ctx, 'cfgall', ops, {}, 'sim', 25, num=ctx.pick(300, 4000), module='PureGen')
    out += [observe(s, st) for s in seqs]
    # every setting on its own: default, own variable, first and second alias, each raw value
    for k, (t, al) in st.items():
        for r in RAWS[t]:
            for n in [k] + al:
                out.append([get(k, t), env(n, r), {'op': 'reset'}, get(k, t), env(n, ''), get(k, t)])
            out.append([{'op': 'set', 'name': k, 'raw': r, 'typ': t}, get(k, t), env(k, RAWS[t][0]), get(k, t), {'op': 'reset'}, get(k, t)])
        for a, b in itertools.permutations([k] + al, 2):
            for r, q in itertools.product(RAWS[t][:3], repeat=2):
                out.append([env(a, r), env(b, q), {'op': 'reset'}, get(k, t)])
    return out


DAYS = [0, 1, 2, 364, 365, 789, 10957, 11016, 19675, 19676, 24855, 24856, 49710, 49711, 106750]
MSD = [0, 1, 2, 499, 500, 999, 1000, 1001, 59999, 60000, 12345678, 43199999, 86399998, 86399999]
NS = [0, 1, 999, 1000, 499999, 500000, 500001, 999000, 999999]


def conv(ctx):
    out = [[{'op': 'conv', 't': [d, m, n]} for m in MSD for n in NS] for d in DAYS]
    for _ in range(ctx.pick(60, 2000)):
        out.append([{'op': 'conv', 't': [ctx.rng.randrange(106751), ctx.rng.randrange(86400000), ctx.rng.choice([0, 1, 999999, ctx.rng.randrange(1000000)])]} for _ in range(100)])
    return out


def clock(ctx):
    t = lambda *a: list(a)
    ops = [{'op': 'now'}, {'op': 'nowms'}, {'op': 'clockreset', 'n': 0}, {'op': 'clockreset', 'n': 1}, {'op': 'clockfn', 't': t(19675, 79999999, 999999)}, {'op': 'clockfn', 't': t(0, 0, 0)},
           {'op': 'clockvals', 'ts': [t(1, 1, 1)]}, {'op': 'clockvals', 'ts': [t(1, 5, 999999), t(2, 86399999, 0)]}, {'op': 'clockvals', 'ts': [t(3, 1, 0), t(2, 1, 0), t(9, 9, 9), t(9, 9, 9), t(24856, 5, 5)]}]
    seqs, total = vlib.generate(ctx, 'clock', ops, {}, 'cover', ctx.pick(6, 9), module='PureGen', cap=ctx.pick(1500, 20000))
    sim, _ = vlib.generate(ctx, 'clocks', ops, {}, 'sim', 30, num=ctx.pick(100, 2000), module='PureGen')
    ctx.parts.setdefault('families', {})['clock'] = {'behaviours': len(seqs) + len(sim)}
    return seqs + sim


def names(ctx):
    toks = [':', 'a', 'é']
    names = [list(c) for n in range(0, ctx.pick(7, 9)) for c in itertools.product(toks, repeat=n)]
    extra = ['.', '*', '{', '}', ' ', '\\', '::a'.replace('::', ''), 'A', '0', '\n', '世', '%3A', ';']
    for _ in range(ctx.pick(400, 5000)):
        names.append([ctx.rng.choice(extra + [':'] * 6) for _ in range(ctx.rng.randrange(12))])
    ctx.parts.setdefault('families', {})['names'] = {'behaviours': len(names), 'exhaustive up to length': ctx.pick(6, 8)}
    ops = [{'op': 'split', 'toks': n} for n in names]
    return [ops[i:i + 100] for i in range(0, len(ops), 100)]


def judge(ctx, name, traces, par=1):
    b = ctx.path('pure-' + name)
    with open(b + '.in', 'w') as f:
        for i, t in enumerate(traces):
            f.write(json.dumps({'id': str(i), 'ops': t}) + '\n')
    vlib.run_drv(ctx, seqfam.drv(ctx), 'pure', '-', b + '.in', b + '.out')
    return vlib.validate(ctx, [('-', b + '.out', len(traces))], 'PureTrace.tla', 'PureTrace.cfg')


def part(*gens):
    def f(ctx):
        for g in gens:
            traces = [t for t in g(ctx) if t]
            vs = judge(ctx, g.__name__, traces)
            ctx.cov['traces_validated_against_impl'] += len(vs)
            ctx.cov['samples'].append({'history': traces[len(traces) // 2][:8]})
            for v in sorted((v for v in vs if v['bad']), key=lambda v: v['at'])[:3]:
                t = traces[int(v['id'])][:v['at']]
                b = {'kind': 'pure', 'ops': t, 'what': '; '.join(w for _, w in v['bad'])}
                if replay(ctx, b):
                    ctx.bad.append(b)
    f.label = 'histories of settings, clock and names'
    return f


def replay(ctx, b):
    return [w for v in judge(ctx, 'replay', [b['ops']]) for _, w in v['bad']]
