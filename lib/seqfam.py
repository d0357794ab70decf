"""Sequential conformance: behaviours generated from the specification are replayed on the real server, for every engine
combination, and the recorded executions are judged by the monitor Trace.tla."""
import copy, json, os
import vlib, fam
from vlib import log

BULKT = 120


def drv(ctx):
    if not getattr(ctx, '_drv', None):
        ctx._drv = vlib.build(ctx)
    return ctx._drv


class Fam:
    """One family of behaviours: an alphabet, how to walk it and how to concretise it.  Pairs are (quick, thorough)."""

    def __init__(self, name, ops=None, mode='sim', depth=25, num=(150, 1500), combos=fam.THREE, snap=0, names=None, scale=60000,
                 start=(), ids=None, grid=None, subus=None, epi=True, maxnow=40, bias=8, seqs=None, t0=None, far=60, tiers=None, lab=(), mx=(24, 200), any=False):
        self.__dict__.update(locals())

    def build(self, ctx):
        pick = lambda v: ctx.pick(*v) if isinstance(v, tuple) and len(v) == 2 and not isinstance(v[0], str) else v
        if self.seqs is not None:
            seqs = self.seqs(ctx)
            total = len(seqs)
        else:
            h = fam.hdr(pick(self.scale) if not isinstance(self.scale, list) else self.scale[0], fam.keyset(self.ops))
            num = pick(self.num)
            if self.mode == 'cover':
                seqs, total = vlib.generate(ctx, self.name, self.ops, h, 'cover', pick(self.depth), maxnow=self.maxnow, start=self.start, cap=num)
            else:
                seqs, total = vlib.generate(ctx, self.name, self.ops, h, 'sim', pick(self.depth), num=num, maxnow=self.maxnow, bias=self.bias, start=self.start)
        k = {}
        if self.ids is not None:
            k['ids'] = self.ids
        if self.grid is not None:
            k['grid'] = self.grid
        if self.subus is not None:
            k['subus'] = self.subus
        if self.t0 is not None:
            k['t0'] = self.t0
        sc = self.scale if isinstance(self.scale, list) else [self.scale]
        out = []
        for i, s in enumerate(sc):       # the generated durations are units: the time-to-live needs the unit used for generation
            part = seqs[i::len(sc)] if len(sc) > 1 else seqs
            out += fam.traces(ctx, f'{self.name}{i if len(sc) > 1 else ""}', part, scale=s, epi=self.epi, names=self.names, far=self.far, snap=self.snap, lab=self.lab or [ctx.prop], mx=pick(self.mx), any=self.any, **k)
        ctx.parts.setdefault('families', {})[self.name] = {'behaviours': len(seqs), 'of': total, 'mode': self.mode if self.seqs is None else 'given',
                                                           'combos': self.combos}
        return out


def run(ctx, fams, confirm=True):
    d = drv(ctx)
    groups = {}
    byid = {}
    fams = [f for f in fams if f.tiers is None or ctx.tier in f.tiers]
    from concurrent.futures import ThreadPoolExecutor
    for f in fams:       # generation draws from one random stream: keep it sequential and reproducible
        ts = f.build(ctx)
        groups.setdefault(tuple(f.combos), []).extend(ts)
        for t in ts:
            byid[t['id']] = t
    files = []
    for i, (combos, ts) in enumerate(groups.items()):
        files += vlib.replay_seq(ctx, d, f'g{i}', ts, list(combos))
    vs = vlib.validate(ctx, files, focus=ctx.prop != 'C19') + vlib.died(ctx)
    ctx.cov['traces_validated_against_impl'] += len(vs)
    ops = {}
    for t in byid.values():
        for o in fam.flat(t['ops']):
            ops[o['op']] = ops.get(o['op'], 0) + 1
    ctx.parts['operations'] = {k: ctx.parts.get('operations', {}).get(k, 0) + v for k, v in ops.items()}
    if byid:
        t = next(iter(byid.values()))
        ctx.cov['samples'].append({'trace': t['id'], 'conc': t['conc'], 'ops': t['ops'][:12]})
    collect(ctx, vs, byid, confirm)
    return files, vs, byid


def why(v, prop=None):
    return sorted({f'{p}: {w}' for p, w in v['bad'] if prop is None or p == prop})


def collect(ctx, vs, byid, confirm=True):
    mine = [v for v in vs if any(p == ctx.prop for p, _ in v['bad'])]
    other = [dict(v, **v['oth'][0]) for v in vs if v['oth'] and not v['bad']]
    ctx.parts['unresolved ties'] = ctx.parts.get('unresolved ties', 0) + sum(1 for v in vs if v['amb'])
    if other:
        ctx.parts['deviations of other properties'] = len(other)
        for v in other[:3]:
            log('note: deviation of other properties', v['combo'], v['id'], v['at'], v['op'], why(v)[:3])
    mine.sort(key=lambda v: v['at'])
    seen = set()
    for v in mine:
        key = (v['op'], tuple(why(v, ctx.prop))[:1], v['combo'])
        if key in seen or len(ctx.bad) >= 3:
            continue
        seen.add(key)
        t = copy.deepcopy(byid[v['id'].split('~')[0]])
        t['ops'] = t['ops'][:v['at']]
        b = {'kind': 'seq', 'combo': v['combo'], 'trace': t, 'at': v['at'], 'op': v['op'], 'why': why(v), 'what': f"{v['combo']}: {v['op']} (event {v['at']}): " + '; '.join(why(v, ctx.prop))}
        if t['hdr'].get('any'):
            alone = dict(copy.deepcopy(b), combo='redis/' + b['combo'].split('/')[1])
            if again(ctx, alone):        # not specific to the cluster
                ctx.parts['not specific'] = ctx.parts.get('not specific', 0) + 1
                continue
        if confirm and not again(ctx, b):
            ctx.parts['not reproduced'] = ctx.parts.get('not reproduced', 0) + 1
            log('not reproduced', b['what'])
            continue
        ctx.bad.append(b)


def again(ctx, b):
    """Re-executes one behaviour; the verdict has to come again."""
    t = copy.deepcopy(b['trace'])
    fs = vlib.replay_seq(ctx, drv(ctx), 're%d' % len(ctx.bad), [t], [b['combo']], par=1)
    vs = vlib.validate(ctx, fs, focus=ctx.prop != 'C19') + vlib.died(ctx)
    return [w for v in vs for w in why(v, ctx.prop)]


def replay(ctx, b):
    return again(ctx, b)


def part(fams, label='sequential conformance'):
    def f(ctx):
        run(ctx, fams)
    f.label = label
    return f
