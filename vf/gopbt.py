"""Runs the Go-level properties of /verif/go/<pkg> (compiled into the module by an overlay) over generated cases, in parallel processes."""
import json, os, subprocess, time, signal, glob
from .driver import build_gotest, Broken, VERIF


def _start(binary, cfg, tmp, tag, env=None):
    cfg = dict(cfg, out=os.path.join(tmp, 'out-%s.json' % tag), progress=os.path.join(tmp, 'prog-%s' % tag))
    p = os.path.join(tmp, 'cfg-%s.json' % tag)
    json.dump(cfg, open(p, 'w'))
    log = open(os.path.join(tmp, 'log-%s' % tag), 'w')
    e = dict(os.environ, VF_CFG=p, GOMAXPROCS=str(cfg.get('procs', 2)), **(env or {}))
    wd = os.path.join(tmp, 'wd-%s' % tag)
    os.makedirs(wd, exist_ok=True)
    return cfg, subprocess.Popen([binary, '-test.run', 'TestProperties', '-test.timeout', '0'], stdout=log, stderr=subprocess.STDOUT, env=e, cwd=wd,
                                 preexec_fn=os.setsid), log.name


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    p.wait()


def _tail(path, n=1500):
    return open(path, errors='replace').read()[-n:]


USES = {'c12': ['terms', 'forms', 'read'], 'c17': ['terms'], 'c18': ['terms'], 'c21': ['terms'], 'c24': ['terms', 'forms'], 'c25': ['terms', 'forms', 'read'], 'c19': ['terms', 'forms']}


INSIDE = {'c21': ('Mods/equality/bse', 'equality')}


def sources(pkg):
    return [f for d in ['common'] + USES.get(pkg, []) + [pkg] for f in sorted(glob.glob(os.path.join(VERIF, 'go', d, '*.go')))]


def run_one(ctx, binary, ident, timeout=60):
    """Re-run one named case; returns a description of the failure or None."""
    cfg, p, log = _start(binary, dict(seed=ident['seed'], replay=ident), ctx.tmp, 'replay%d' % os.getpid())
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        _kill(p)
        return 'no end within %d s' % timeout
    if os.path.exists(cfg['out']):
        o = json.load(open(cfg['out']))
        os.unlink(cfg['out'])
        if o.get('done'):
            return o['fails'][0]['what'] if o['fails'] else None
    text = os.path.join(os.path.dirname(log), os.path.basename(log).replace('log-', 'wd-', 1), 'in.p')
    text = ', input: ' + open(text, errors='replace').read()[:600] if os.path.exists(text) else ''
    return 'the process stopped with exit code %s: %s%s' % (p.returncode, _tail(log), text)


def smaller(ctx, binary, ident):
    """A smaller case that stops the process, looked for under other seeds."""
    best = ident
    for r in range(12):
        cfg, p, _ = _start(binary, dict(seed=ident['seed'] * 1000 + r, tests=[ident['test']], count=best['size'] * 40, cap=4, shard=0, shards=1), ctx.tmp, 'shrink%d' % r)
        try:
            p.wait(6)
        except subprocess.TimeoutExpired:
            _kill(p)
        if os.path.exists(cfg['out']):
            continue
        cand = json.loads(open(cfg['progress']).read())
        if cand['size'] < best['size'] and run_one(ctx, binary, cand):
            best = cand
    return best


def run(ctx, pkg, count, cap, tests=(), stall=25):
    binary = build_gotest(pkg, sources(pkg), inside=INSIDE.get(pkg))
    shards = 8
    procs = [_start(binary, dict(seed=ctx.seed, tests=list(tests), count=count, cap=cap, shard=k, shards=shards), ctx.tmp, 's%d' % k) for k in range(shards)]
    bad = []
    shrunk = set()
    last = {}
    while any(p.poll() is None for _, p, _ in procs):
        time.sleep(.2)
        for k, (cfg, p, log) in enumerate(procs):
            if p.poll() is not None:
                continue
            try:
                cur = open(cfg['progress']).read()
            except OSError:
                cur = ''
            if last.get(k, ('', 0))[0] != cur:
                last[k] = (cur, time.time())
            elif time.time() - last[k][1] > stall:
                _kill(p)
    for cfg, p, log in procs:
        o = json.load(open(cfg['out'])) if os.path.exists(cfg['out']) else None
        if o and o.get('done'):
            ctx.evals += o['evaluations']
            ctx.nontriv.update(o['nontrivial'] or [])
            for k, v in o['classes'].items():
                ctx.cls(k, v)
            for s in o['samples'] or []:
                if not any(str(x)[:25] == s[:25] for x in ctx.samples) or len(ctx.samples) < 6:
                    ctx.samples.append(s)
            ctx.inconclusive += o['inconclusive']
            for f in o['fails'] or []:
                bad.append((f['size'], f['what'], {k: f[k] for k in ('test', 'seed', 'label', 'index', 'size')}))
            continue
        try:
            ident = json.loads(open(cfg['progress']).read())
        except Exception:
            raise Broken('property run of %s did not start: %s' % (pkg, _tail(log)))
        what = run_one(ctx, binary, ident)
        if what is not None and ident['test'] not in shrunk:
            shrunk.add(ident['test'])
            ident = smaller(ctx, binary, ident)
            what = run_one(ctx, binary, ident)
        if what is None:
            raise Broken('property run of %s stopped (%s) at %s but not again: %s' % (pkg, p.returncode, ident, _tail(log)))
        bad.append((ident['size'], what, ident))
    done = set()
    for size, what, ident in sorted(bad, key=lambda b: b[0]):
        if ident['test'] in done:
            continue
        done.add(ident['test'])
        ctx.violation('%s: %s' % (ident['test'], what), dict(go=pkg, case=ident, what=what))
    ctx.samples = ctx.samples[:14]


def replay(ctx, rep):
    return run_one(ctx, build_gotest(rep['go'], sources(rep['go']), inside=INSIDE.get(rep['go'])), rep['case'])
