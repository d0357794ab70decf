"""Shared machinery of the checks: build, generate, replay, validate, report."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import fam

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
MOD = 'github.com/takenet/deckard'
STUBS = {
    'go.opentelemetry.io/otel': 'otel', 'go.opentelemetry.io/otel/metric': 'metric', 'go.opentelemetry.io/otel/trace': 'trace',
    'go.opentelemetry.io/otel/sdk': 'sdk', 'go.opentelemetry.io/otel/sdk/metric': 'sdkmetric',
    'go.opentelemetry.io/otel/exporters/otlp/otlptrace': 'otlptrace',
    'go.opentelemetry.io/otel/exporters/otlp/otlptrace/otlptracegrpc': 'otlptracegrpc',
    'go.opentelemetry.io/otel/exporters/prometheus': 'promexp',
    'go.opentelemetry.io/contrib/instrumentation/google.golang.org/grpc/otelgrpc': 'otelgrpc',
    'go.opentelemetry.io/contrib/instrumentation/go.mongodb.org/mongo-driver/v2/mongo/otelmongo': 'otelmongo',
    'github.com/redis/go-redis/extra/redisotel/v9': 'redisotel',
}
CPUS = os.cpu_count() or 4


class Broken(Exception):
    """The check could not give an answer (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        base = os.path.join(VERIF, '.build')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=f'{prop}-', dir=base)
        self.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.parts = {}
        self.bad = []        # dicts: combo, family, at, op, why, trace
        self.died = []       # verdicts on behaviours that ended the process
        self.findings = []   # violations that known_findings may list, with their identifier

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    @property
    def quick(self):
        return self.tier != 'thorough'

    def pick(self, quick, thorough):
        return quick if self.quick else thorough


def goenv():
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
    for kv in out.split(b'\0'):
        if b'=' in kv:
            k, v = kv.decode().split('=', 1)
            e[k] = v
    e.pop('PWD', None), e.pop('OLDPWD', None)
    e['GOFLAGS'] = '-mod=mod'
    return e


def modfile(d):
    with open(os.path.join(REPO, 'go.mod')) as f:
        m = f.read()
    with open(os.path.join(d, 'go.mod'), 'w') as f:
        f.write(m + '\n' + ''.join(f'replace {k} => {VERIF}/stubs/{v}\n' for k, v in STUBS.items()))
    shutil.copy(os.path.join(REPO, 'go.sum'), os.path.join(d, 'go.sum'))


def locks(d):
    """The repository's mutexes, replaced by ones whose acquisition the driver can schedule (harness/vsync)."""
    src = os.path.join(VERIF, 'harness', 'vsync')
    ov = {os.path.join(REPO, 'internal', 'verifsync', f): os.path.join(src, f) for f in os.listdir(src) if f.endswith('.go')}
    n = 0
    for base, ds, fs in os.walk(os.path.join(REPO, 'internal')):
        for f in fs:
            if f.endswith('.go') and not f.endswith('_test.go'):
                p = os.path.join(base, f)
                s = open(p, encoding='utf-8').read()
                t = re.sub(r'^(import\s+|[ \t]+)"sync"[ \t]*$', r'\1sync "' + MOD + '/internal/verifsync"', s, flags=re.M)
                if t != s:
                    n += 1
                    o = os.path.join(d, f'sync{n}-{f}')
                    with open(o, 'w', encoding='utf-8') as fh:
                        fh.write(t)
                    ov[p] = o
    return ov


def build(ctx, what='drv', pkg=None, srcdir=None, race=False, out=None):
    """Builds the driver (harness/drv laid over the repository) or one of the repository's own commands."""
    d = ctx.path('mod')
    os.makedirs(d, exist_ok=True)
    modfile(d)
    out = out or ctx.path(what + ('-race' if race else ''))
    cmd = ['go', 'build', '-modfile=' + d + '/go.mod', '-o', out]
    if race:
        cmd.append('-race')
    if pkg is None:
        src = os.path.join(VERIF, 'harness', srcdir or what)
        ov = {os.path.join(REPO, 'internal', 'verif' + what, f): os.path.join(src, f) for f in os.listdir(src) if f.endswith('.go')}
        ov.update(locks(d))
        with open(os.path.join(d, what + '.json'), 'w') as f:
            json.dump({'Replace': ov}, f)
        cmd += ['-overlay', os.path.join(d, what + '.json'), './internal/verif' + what]
    else:
        cmd.append(pkg)
    p = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
    if p.returncode:
        raise Broken(f'build of {what} failed:\n' + p.stdout[-3000:] + p.stderr[-6000:])
    return out


TLCJ = ['-XX:+UseParallelGC', '-Xss16m']


def tlc(ctx, module, cfg, env=None, args=(), timeout=840, mem='3g', specdir=None, check=True):
    md = tempfile.mkdtemp(prefix='md-', dir=ctx.dir)
    e = dict(os.environ)
    e.update(env or {})
    e['JAVA_TOOL_OPTIONS'] = '-Xmx' + mem + ' ' + ' '.join(TLCJ)
    cmd = ['tlc', '-config', cfg, '-metadir', md, '-noGenerateSpecTE'] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=specdir or SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f'TLC timed out on {module} {cfg}')
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r'^([\d,]+) states generated, ([\d,]+) distinct states found', p.stdout, re.M)
    st = (int(m[-1][1].replace(',', '')), int(m[-1][0].replace(',', ''))) if m else (0, 0)
    if check and p.returncode != 0:
        raise Broken(f'TLC failed on {module} {cfg} ({p.returncode}):\n' + p.stdout[-5000:] + p.stderr[-2000:])
    return p.returncode, p.stdout, st


# ------------------------------------------------------------------- generation
def generate(ctx, name, ops, hdr, mode, depth, num=0, maxnow=40, bias=8, start=(), timeout=600, cap=None, module='Gen'):
    """Behaviours (lists of operations) of Gen over the alphabet ops."""
    f = ctx.path(f'gen-{name}.json')
    with open(f, 'w') as fh:
        json.dump({'ops': ops, 'hdr': hdr, 'depth': depth, 'start': [i + 1 for i in start], 'maxnow': maxnow, 'bias': bias}, fh)
    if mode == 'cover':
        rc, out, st = tlc(ctx, module + '.tla', module + 'Cover.cfg', {'GENCFG': f}, ['-workers', str(CPUS)], timeout)
    else:
        rc, out, st = tlc(ctx, module + '.tla', module + 'Sim.cfg', {'GENCFG': f},
                          ['-simulate', f'num={num}', '-depth', str(depth + 1), '-seed', str(ctx.rng.randrange(1 << 30)), '-workers', '1'],
                          timeout, check=False)
        if rc not in (0,) or 'Error' in out:
            raise Broken('generation failed: ' + out[-3000:])
    seqs = [tuple(int(x) - 1 for x in re.findall(r'\d+', l)) for l in re.findall(r'GEN <<([^>]*)>>', out)]
    seqs = list(dict.fromkeys(seqs))
    if mode == 'cover':   # drop behaviours that are prefixes of others
        pre = set()
        for q in seqs:
            for i in range(1, len(q)):
                pre.add(q[:i])
        seqs = [q for q in seqs if q not in pre]
        ctx.cov['states'] += st[0]
        ctx.cov['transitions'] += st[1]
    else:
        ctx.cov['transitions'] += sum(len(q) for q in seqs)
    seqs.sort()
    total = len(seqs)
    if cap and len(seqs) > cap:
        seqs = ctx.rng.sample(seqs, cap)
    if not seqs:
        raise Broken(f'no behaviours generated for {name}')
    return [[ops[i] for i in q] for q in seqs], total


# ------------------------------------------------------------------- replay
def chunks(xs, n):
    k = max(1, (len(xs) + n - 1) // n)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def run_drv(ctx, drv, mode, combo, infile, outfile, timeout=600, extra=()):
    e = dict(os.environ, TZ='UTC', GOMAXPROCS='4')
    try:
        p = subprocess.run([drv, mode, '-combo', combo, '-in', infile, '-out', outfile, *extra], capture_output=True, text=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise Broken(f'driver timed out ({mode} {combo})')
    if p.returncode:
        raise Broken(f'driver failed ({mode} {combo}, {p.returncode}): ' + p.stdout[-1000:] + p.stderr[-4000:])


def replay_seq(ctx, drv, name, traces, combos, par=None, race=None):
    """Replays every trace on every combination; returns the recorded files."""
    jobs = []
    per = max(1, (par or CPUS) // max(1, len(combos)))
    for combo in combos:
        for i, ch in enumerate(chunks(traces, per if len(traces) > 200 or len(traces) > 8 and any(o['op'] == 'par' for t in traces[:3] + traces[-3:] for o in t['ops']) else 1)):
            b = ctx.path(f'{name}-{combo.replace("/", "_")}-{i}')
            mem = combo == 'memory/memory'
            with open(b + '.in', 'w') as fh:
                for t in ch:
                    t['hdr']['mem'] = mem
                    t['hdr']['refuse'] = [] if combo.startswith('memory') else fam.refused(t['conc']['queues'])
                    fh.write(json.dumps(t) + '\n')
            jobs.append((combo, b, len(ch)))
    with ThreadPoolExecutor(par or CPUS) as ex:
        fs = [f for fs in ex.map(lambda j: run_seq(ctx, drv, j[0], j[1], race), jobs) for f in fs]
    return [(c, f, sum(1 for _ in open(f, 'rb'))) for c, f in fs]


OWN = re.compile(r'takenet/deckard/internal/(?!verif)')


def run_seq(ctx, drv, combo, b, race=None):
    """Runs the driver over b.in; when the server's code brings it down, that is the verdict on the behaviour being executed and the
    others are executed by a new process."""
    out, k, rest = [], 0, b + '.in'
    while True:
        o = f'{b}.out{k or ""}'
        e = dict(os.environ, TZ='UTC', GOMAXPROCS='4')
        if race:
            e['GORACE'] = f'halt_on_error=0 exitcode=0 history_size=3 log_path={race}'
        try:
            p = subprocess.run([drv, 'seq', '-combo', combo, '-in', rest, '-out', o], capture_output=True, text=True, errors='replace', timeout=800, env=e)
        except subprocess.TimeoutExpired:
            raise Broken(f'driver timed out (seq {combo})')
        if p.returncode == 0:
            return out + [(combo, o)]
        died = p.returncode == 2 and ('panic: ' in p.stderr or 'fatal error: ' in p.stderr) and OWN.search(p.stderr) or p.returncode == 4 and 'STUCK' in p.stderr
        if not died or not os.path.exists(o + '.at'):
            raise Broken(f'driver failed (seq {combo}, {p.returncode}): ' + p.stdout[-1000:] + p.stderr[-4000:])
        at = open(o + '.at').read()
        ls = open(rest).readlines()
        i = next(i for i, l in enumerate(ls) if json.loads(l)['id'] == at)
        t = json.loads(ls[i])
        what = 'an operation never ends' if p.returncode == 4 else 'the server crashes'
        m = re.search(r'^(panic|fatal error|STUCK):?.*$', p.stderr, re.M)
        n = OWN.search(p.stderr)
        fr = p.stderr[n.start():p.stderr.find('\n', n.start())] if n else ''
        ctx.died.append({'id': at, 'combo': combo, 'at': len(t['ops']), 'op': 'run', 'n': 0, 'amb': False, 'oth': [],
                         'bad': [[ctx.prop, f'{what}: {m.group(0) if m else ""} {fr}'[:300]]]})
        if os.path.exists(o):        # whole lines only
            with open(o, 'rb') as f:
                d = f.read()
            with open(o, 'wb') as f:
                f.write(d[:d.rfind(b'\n') + 1])
            if d.rfind(b'\n') >= 0:
                out.append((combo, o))
        k += 1
        if k > 2 or i + 1 >= len(ls):
            return out
        rest = f'{b}.in{k}'
        with open(rest, 'w') as f:
            f.writelines(ls[i + 1:])


def died(ctx):
    """The behaviours that brought the server down since the last call."""
    d, ctx.died = ctx.died, []
    return d


def validate(ctx, files, module='Trace.tla', cfg='Trace.cfg', focus=True):
    """Runs the monitor over recorded files: [(combo, path, count)] -> verdicts."""
    batches, cur, size = [], [], 0
    for f in files:
        s = os.path.getsize(f[1])
        if cur and size + s > 12_000_000:
            batches.append(cur)
            cur, size = [], 0
        cur.append(f)
        size += s
    if cur:
        batches.append(cur)
    nb = len(batches)
    if not nb:
        return []
    par = min(nb, 4)

    def one(ib):
        i, b = ib
        f = ctx.path(f'val-{i}-{os.path.basename(b[0][1])}')
        with open(f, 'wb') as o:
            for x in b:
                with open(x[1], 'rb') as fh:
                    shutil.copyfileobj(fh, o)
        n = sum(x[2] for x in b)
        rc, out, st = tlc(ctx, module, cfg, {'TRACES': f, 'PROP': ctx.prop if focus else ''}, ['-workers', str(max(1, CPUS // par))], mem='5g')
        vs = []
        for l in out.splitlines():
            if l.startswith('"VERDICT '):
                vs.append(json.loads(json.loads(l)[8:]))
        if len(vs) != n:
            raise Broken(f'monitor answered for {len(vs)} of {n} executions:\n' + out[-3000:])
        ctx.cov['states'] += st[0]
        ctx.cov['transitions'] += st[1]
        os.unlink(f)
        return vs
    with ThreadPoolExecutor(par) as ex:
        return [v for vs in ex.map(one, enumerate(batches)) for v in vs]
