"""Several deployments sharing one Redis with other applications: each one's execution has to be explained by its own operations."""
import copy, json
import vlib, fam, seqfam
from vlib import log

PREFIXES = [('app', 'app2'), ('', 'other'), ('a*', 'ab'), ('[ab]', 'a'), ('a?', 'ab'), ('p\\', 'p'), (':x:', 'y'), ('x', 'queue'), ('deckard_v1', 'deckard_v10'), (' sp ', 'sp2'), ('A', 'a'), ('é', 'e')]


def effective(p):
    return p.strip().strip(':') if p.strip() else 'deckard_v1'


def foreign(ps, queues):
    out = set()
    q = queues['a']
    for p in map(effective, ps):
        out |= {p, p + '2x', p + 'x:queue:{' + q + '}', 'other:' + p + ':queue:{' + q + '}', p.upper() + 'Z:queue:{' + q + '}', p.replace('*', 'zz').replace('?', 'z').replace('[ab]', 'b') + 'z:{k}', 'queue:{' + q + '}z',
                p.replace('*', 'zz') + 'w:queue:{' + q + '}', p.replace('\\', '') + 'v:queue:{' + q + '}'}
    return sorted(k for k in out if not any(k.startswith(effective(p) + ':') for p in ps))


def build(ctx, name, ops, depth, num):
    h = fam.hdr(60000, fam.keyset(ops))
    seqs, _ = vlib.generate(ctx, name, ops, h, 'sim', depth, num=2 * num)
    ctx.rng.shuffle(seqs)
    out = []
    for i in range(0, len(seqs) - 1, 2):
        c = fam.conc(ctx.rng, 60000, ctx.rng.choice(fam.PLAINQ + fam.QNAMES[:3]))
        ps = ctx.rng.choice(PREFIXES)
        if ctx.rng.random() < .5:
            ps = ps[::-1]
        who, mix = [], []
        rest = [list(seqs[i]), list(seqs[i + 1])]
        while rest[0] or rest[1]:
            d = ctx.rng.choice([j for j in (0, 1) if rest[j]])
            mix.append(rest[d].pop(0))
            who.append(d)
        qs = sorted({k[0] for k in fam.keyset(mix)} | {o['q'] for o in fam.flat(mix) if o.get('q')})
        epi = fam.epilogue(mix, qs)
        for o in epi:
            for d in ((0, 1) if o['op'] != 'adv' else (0,)):
                mix.append(o)
                who.append(d)
        ks = fam.keyset(mix)
        hd = fam.hdr(60000, ks, 1, c['queues'])
        hd['lab'], hd['any'] = [ctx.prop], True
        out.append({'id': f'{name}-{i}', 'seed': ctx.seed, 'conc': c, 'ops': mix, 'who': who, 'tenants': list(ps), 'foreign': foreign(ps, c['queues']), 'keys': [list(k) for k in ks], 'snap': 1, 'hdr': hd})
    ctx.parts.setdefault('families', {})[name] = {'behaviours': len(out), 'mode': 'two deployments and foreign keys on one Redis'}
    return out


def verdicts(ctx, name, ts, combos):
    fs = vlib.replay_seq(ctx, seqfam.drv(ctx), name, ts, combos)
    return vlib.validate(ctx, fs) + [dict(v, id=v['id'] + '~t0') for v in vlib.died(ctx)]


def alone(ctx, t, d, combo):
    """The same operations of one deployment that has its Redis for itself."""
    u = {k: copy.deepcopy(v) for k, v in t.items() if k not in ('tenants', 'who', 'foreign')}
    u['ops'] = [o for o, w in zip(t['ops'], t['who']) if w == d or o['op'] == 'adv']
    vs = verdicts(ctx, 'alone', [u], [combo])
    return [w for v in vs for w in seqfam.why(v, ctx.prop)]


def part(name, ops, depth=(20, 30), num=(60, 600), combos=('redis/memory', 'cluster/memory'), without=None):
    def f(ctx):
        ts = build(ctx, name, ops, ctx.pick(*depth), ctx.pick(*num))
        byid = {t['id']: t for t in ts}
        vs = verdicts(ctx, name, ts, list(combos))
        ctx.cov['traces_validated_against_impl'] += len(vs)
        for v in sorted((v for v in vs if any(p == ctx.prop for p, _ in v['bad'])), key=lambda v: v['at']):
            if len(ctx.bad) >= 3:
                break
            t = byid[v['id'].split('~')[0]]
            b = {'kind': 'tenants', 'combo': v['combo'], 'trace': t, 'at': v['at'], 'who': v['id'], 'why': seqfam.why(v),
                 'what': f"{v['combo']}, deployments {t['tenants']}: {v['op']} (event {v['at']} of {v['id']}): " + '; '.join(seqfam.why(v, ctx.prop))}
            if alone(ctx, t, int(v['id'].rsplit('~t', 1)[1]), v['combo']):
                ctx.parts['not specific'] = ctx.parts.get('not specific', 0) + 1
                continue
            if without:
                u = copy.deepcopy(t)
                u['ops'] = [o for o in t['ops'] if o['op'] != without]
                u['who'] = [w for o, w in zip(t['ops'], t['who']) if o['op'] != without]
                if any(seqfam.why(x, ctx.prop) for x in verdicts(ctx, 'without', [u], [v['combo']])):
                    ctx.parts['not specific'] = ctx.parts.get('not specific', 0) + 1
                    continue
            if again(ctx, b):
                ctx.bad.append(b)
    f.label = 'deployments sharing one Redis'
    return f


def again(ctx, b):
    vs = verdicts(ctx, 'again', [copy.deepcopy(b['trace'])], [b['combo']])
    return [w for v in vs for w in seqfam.why(v, ctx.prop)]


def replay(ctx, b):
    return again(ctx, b)
