"""Transport: every server configuration of Conn.tla with every client, size limits, connection limits and health, on the real gRPC server."""
import json
import vlib, seqfam, design

PLAIN = {'tls': False, 'sni': 's1', 'cert': 'none'}
CERTS = ['none', 'c1', 'c2', 'self', 'old', 'srv']
CLIENTS = [PLAIN] + [{'tls': True, 'sni': s, 'cert': c} for s in ('s1', 's2', 'other') for c in CERTS]
V0 = {'cert': [], 'key': [], 'ca': [], 'auth': ''}
NAMES = ['', 'blipai.deckard.Deckard', 'grpc.health.v1.Health', 'blipai.deckard.Nothing', 'blipai.deckard']


def serve(busy=False, **v):
    return {'op': 'serve', 'v': {**V0, **v}, 'busy': busy}


def servers(ctx):
    rc, out, n = vlib.tlc(ctx, 'Conn.tla', 'Conn.cfg', {}, ['-workers', '8'], timeout=300, mem='4g')
    design.states(ctx, 'of transport settings', rc, n)
    return [json.loads(json.loads(l)[5:]) for l in sorted({l for l in out.splitlines() if l.startswith('"PLAN ')})]


def gen(ctx):
    vs = servers(ctx)
    out = []
    health = [{'op': 'health', 'c': PLAIN, 'name': n} for n in NAMES]
    for v in vs:
        cs = list(CLIENTS)
        ctx.rng.shuffle(cs)
        if len(v['cert']) != len(v['key']) or {'gone', 'junk'} & set(v['cert'] + v['key'] + v['ca']):
            cs = cs[:4]
        out.append([{'op': 'serve', 'v': v, 'busy': False}] + [{'op': 'call', 'c': c} for c in cs])
    rng = ctx.rng
    for _ in range(ctx.pick(10, 100)):        # one process, several servers one after the other
        t = []
        for v in rng.sample(vs, 4):
            t += [{'op': 'serve', 'v': v, 'busy': False}] + [{'op': 'call', 'c': c} for c in rng.sample(CLIENTS, 5)]
        out.append(t)
    out += [[serve(True), {'op': 'call', 'c': PLAIN}], [serve(), *health], [serve(True, cert=['s1'], key=['s1'])],
            [serve(cert=['s1'], key=['s1'], ca=['ca1'], auth='RequireAndVerifyClientCert')] + [{'op': 'health', 'c': {'tls': True, 'sni': 's1', 'cert': 'c1'}, 'name': n} for n in NAMES]]
    MB = 4194304
    for lim in ctx.pick([1000, 20000, None], [300, 1000, 20000, 70000, 1000000, 5000000, None]):
        n = lim or MB
        ks = [n - 100, n - 1, n, n + 1, n + 100] if n < MB else [n - 1, n, n + 1]
        for k in ('recv', 'send'):
            o = 'send' if k == 'recv' else 'fetch'
            out.append([serve(**({k: lim} if lim else {}))] + [{'op': o, 'c': PLAIN, 'k': x} for x in ks])
            if lim and lim < MB:      # the other limit stays what it is
                out.append([serve(**{k: lim})] + [{'op': 'fetch' if o == 'send' else 'send', 'c': PLAIN, 'k': x} for x in [lim + 1, 3 * lim]])
    for v, kinds in ([{}, 'idle mute busy hold'], [{'idle': 400}, 'idle busy hold'], [{'age': 500}, 'idle busy hold'], [{'age': 500, 'grace': 400}, 'hold busy'], [{'grace': 400}, 'hold idle busy'],
                     [{'ka': 1000, 'kt': 400}, 'mute idle busy hold'], [{'kt': 400}, 'mute idle'], [{'ka': 1000}, 'mute idle'],
                     [{'ka': 1000, 'kt': 60000}, 'mute idle'], [{'ka': 60000, 'kt': 400}, 'mute idle'], [{'idle': 60000}, 'idle'], [{'age': 60000}, 'idle busy hold'], [{'age': 500, 'grace': 60000}, 'idle hold'],
                     [{'age': 60000, 'grace': 400}, 'hold idle'], [{'idle': 400, 'age': 60000}, 'idle busy'], [{'idle': 60000, 'age': 500, 'grace': 400}, 'busy hold'], [{'idle': 400, 'ka': 60000, 'kt': 60000}, 'idle mute hold']):
        for k in kinds.split():
            out.append([serve(**v), {'op': 'watch', 'c': PLAIN, 'kind': k}])
    ctx.parts['transport'] = {'server configurations': len(vs), 'clients of each': len(CLIENTS), 'histories': len(out)}
    return out


def judge(ctx, name, traces):
    b = ctx.path('conn-' + name)
    with open(b + '.in', 'w') as f:
        for i, t in enumerate(traces):
            f.write(json.dumps({'id': str(i), 'ops': t}) + '\n')
    vlib.run_drv(ctx, seqfam.drv(ctx), 'conn', '-', b + '.in', b + '.out')
    return vlib.validate(ctx, [('-', b + '.out', len(traces))], 'ConnTrace.tla', 'ConnTrace.cfg', focus=False)


def part(ctx):
    ts = gen(ctx)
    vs = judge(ctx, 'all', ts)
    ctx.cov['traces_validated_against_impl'] += len(vs)
    ctx.cov['samples'].append(ts[500][:6])
    for v in sorted((v for v in vs if v['bad']), key=lambda v: v['at'])[:3]:
        b = {'kind': 'conn', 'ops': ts[int(v['id'])][:v['at']], 'what': '; '.join(w for _, w in v['bad'])}
        if replay(ctx, b):
            ctx.bad.append(b)


part.label = 'transport'


def replay(ctx, b):
    return [w for v in judge(ctx, 'replay', [b['ops']]) for _, w in v['bad']]
