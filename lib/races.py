"""Histories in which the code is known to break a property (listed in known_findings): every order of the backend calls of two
concurrent requests is executed, and what is left afterwards is asked for."""
import json
import vlib, fam, scen, seqfam
from fam import *

END = [count('a'), get('a', '1'), adv(60), UNLOCK, TIMEOUT, pull('a', 5), count('a')]


def stranded(ev):
    """Stored, but no pull delivers it."""
    c, g, p = ev[-7], ev[-6], ev[-2]
    return g['r']['found'] and not any(x['id'] == '1' for x in p['r']['msgs'])


def gone(ev):
    return not ev[-6]['r']['found']


# finding -> (property, state, concurrent operations, what is wrong afterwards, other orders explained elsewhere)
CASES = {
    'STRANDED-REMOVE-ADD': ('C09', 'one', ('rem', 'add'), stranded),
    'STRANDED-PULL-ADD': ('C09', 'stale', ('pull1', 'add'), stranded),
    'DELETED-TTL-READD': ('C12', 'expired', ('ttl', 'add'), gone),
}


def part(*names):
    def f(ctx):
        ts, of = [], {}
        for n in names:
            p, s, ops, bad = CASES[n]
            seq = scen.STATES[s] + [par(*(scen.OPS[o] for o in ops))] + END
            t = fam.traces(ctx, n, [seq], names=[QNAMES[0]], epi=False, lab=[ctx.prop], mx=400)
            ts += t
            of[t[0]['id']] = n
        files = vlib.replay_seq(ctx, seqfam.drv(ctx), 'races', ts, ['redis/mongo'])
        vlib.died(ctx)
        hit = {}
        for _, path, _ in files:
            for l in open(path):
                r = json.loads(l)
                n = of[r['id'].split('~')[0]]
                ctx.parts.setdefault('races', {}).setdefault(n, [0, 0])[0] += 1
                if CASES[n][3](r['ev']):
                    ctx.parts['races'][n][1] += 1
                    hit.setdefault(n, r)
        for n, r in hit.items():
            ctx.findings.append({'kind': 'race', 'finding': n, 'what': f'{n}: ' + ' and '.join(CASES[n][2]) + ' at the same time', 'sched': [e['sched'] for e in r['ev'] if e['op'] == 'par']})
    f.label = 'known races'
    return f


def replay(ctx, b):
    part(b['finding'])(ctx)
    return [x for x in ctx.findings if x['finding'] == b['finding']]
