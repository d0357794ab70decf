"""C19: the same behaviour on every engine combination."""
import copy, json, os
import vlib, fam, seqfam
from vlib import log


def groups(ctx, files, byid, name):
    evs = {}
    for combo, path, n in files:
        for line in open(path):
            r = json.loads(line)
            evs.setdefault(r['id'], {})[combo] = r
    f = ctx.path('agree-' + name)
    fs, cur, size, k = [], None, 0, 0
    for id, by in sorted(evs.items()):
        cs = sorted(by, key=fam.ALL6.index)
        line = json.dumps({'id': id, 'hdr': by[cs[0]]['hdr'], 'combos': cs, 'evs': [by[c]['ev'] for c in cs]}) + '\n'
        if cur is None or size > 12_000_000:
            if cur:
                cur.close()
            cur, size = open(f'{f}-{len(fs)}', 'w'), 0
            fs.append(['all', f'{f}-{len(fs)}', 0])
        cur.write(line)
        size += len(line)
        fs[-1][2] += 1
    cur.close()
    return vlib.validate(ctx, [tuple(x) for x in fs], 'Agree.tla', 'Agree.cfg', focus=False)


def part(fams):
    def f(ctx):
        files, vs, byid = seqfam.run(ctx, fams)
        av = groups(ctx, files, byid, 'all')
        ctx.parts['compared events'] = sum(v['at'] for v in av)
        ctx.parts['events recorded'] = sum(v['n'] for v in av)
        bad = [(v, sorted(w for _, w in v['bad'])) for v in av if v['bad']]
        # conforming on some combinations only
        per = {}
        for v in vs:
            per.setdefault(v['id'], []).append(v)
        for id, xs in per.items():
            if any(x['bad'] for x in xs) and not all(x['bad'] for x in xs):
                x = min((x for x in xs if x['bad']), key=lambda x: x['at'])
                bad.append((x, ['only ' + ', '.join(y['combo'] for y in xs if y['bad']) + ' deviates from the specification: ' + '; '.join(seqfam.why(x))]))
        bad.sort(key=lambda b: b[0]['at'])
        for v, w in bad[:2]:
            t = copy.deepcopy(byid[v['id']])
            t['ops'] = t['ops'][:v['at']]
            b = {'kind': 'agree', 'trace': t, 'combos': sorted({x['combo'] for x in per[v['id']]}, key=fam.ALL6.index), 'what': '; '.join(w)}
            if replay(ctx, b):
                ctx.bad.append(b)
    f.label = 'agreement of the engine combinations'
    return f


def replay(ctx, b):
    t = copy.deepcopy(b['trace'])
    fs = vlib.replay_seq(ctx, seqfam.drv(ctx), 're%d' % len(ctx.bad), [t], b['combos'], par=1)
    out = [w for v in groups(ctx, fs, {}, 're') for _, w in v['bad']]
    vs = vlib.validate(ctx, fs, focus=False) + vlib.died(ctx)
    if any(v['bad'] for v in vs) and not all(v['bad'] for v in vs):
        out += [v['combo'] + ': ' + '; '.join(seqfam.why(v)) for v in vs if v['bad']]
    return out
