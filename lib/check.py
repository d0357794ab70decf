"""The checks: check.py PROPERTY quick|thorough   or   check.py --replay FILE."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import VERIF, Broken, Ctx, log

REPLAYS = os.path.join(VERIF, 'evidence', 'replays')


def known(prop):
    """Listed findings of a property: id -> (text, matcher terms)."""
    out = {}
    f = os.path.join(VERIF, 'known_findings')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('finding: property=' + prop + ' '):
                p = l.strip().split(' ', 3)
                out[p[2]] = p[3] if len(p) > 3 else ''
    return out


def samples(ctx, out):
    for s in ctx.cov['samples'][:6]:
        out.append(s if len(json.dumps(s)) < 4000 else json.dumps(s)[:4000])


def evidence(ctx, bad, level):
    cov = dict(ctx.cov)
    s = []
    samples(ctx, s)
    cov['samples'] = s
    cov['parts'] = ctx.parts
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 1), 'violations': len(bad)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import props
    spec = props.PROPS[prop]
    ctx = Ctx(prop, tier, seed)
    ctx.assumptions = list(props.ASSUME)
    try:
        for part in spec['parts']:
            t = time.time()
            part(ctx)
            n = getattr(part, 'label', getattr(part, '__name__', 'part'))
            ctx.parts.setdefault(n, {})['wall_s'] = round(time.time() - t, 1)
            if ctx.bad:
                break
        bad = ctx.bad + ctx.findings
        kf = known(prop)
        new = []
        for b in bad:
            if b.get('finding') in kf:
                print(f"KNOWN-FINDING: property={prop} {b['finding']} {kf[b['finding']]}")
            else:
                new.append(b)
        evidence(ctx, new, spec.get('level', 'model_checking'))
        if new:
            os.makedirs(REPLAYS, exist_ok=True)
            for i, b in enumerate(new[:3]):
                p = os.path.join(REPLAYS, f'{prop}-{tier}-{seed}-{i}.json')
                with open(p, 'w') as f:
                    json.dump(dict(b, property=prop), f, indent=1)
                print(f"VIOLATION property={prop} replay={p}")
                print('  ' + str(b.get('what', ''))[:600])
            return 1
        print(f"ok property={prop} tier={tier} seed={seed} {json.dumps({k: v for k, v in ctx.cov.items() if k != 'samples'})} {time.time() - ctx.t0:.1f}s")
        return 0
    except Broken as e:
        print('CHECK-BROKEN', str(e)[:6000])
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


def replay(path):
    import props
    b = json.load(open(path))
    ctx = Ctx(b['property'], 'quick', 1)
    ctx.assumptions = []
    try:
        res = props.REPLAY[b['kind']](ctx, b)
        print(json.dumps(res, indent=1)[:20000])
        return 1 if res else 0
    finally:
        ctx.close()


if __name__ == '__main__':
    sys.exit(main())
