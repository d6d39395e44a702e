"""The verdict does not depend on the schedule nor on what is printed."""
from ..driver import *
from ..verdict import *

BASE = [[], [], ['-inner'], ['-preinner'], ['-flatten'], ['-completeness'], ['-dmt']]
EQB = [[], ['-sateq'], ['-eagereq'], ['-flatten'], ['-inner']]
OUT = [[], ['-proof'], ['-otptp'], ['-osctptp'], ['-orocq'], ['-orocq', '-context'], ['-chrono'], ['-print-id'], ['-pretty', '-proof'], ['-proof', '-otptp']]


def decided(rng):
    """Problems on which the prover stops: propositional, ground, one block of quantifiers, small theorems, small non-theorems."""
    m = rng.random()
    if m < .2:
        return 'prop', False, gen_problem(rng, prop=True, max_ax=4, budget=rng.choice([6, 10, 14]))[0]
    if m < .35:
        from .C03 import ground_problem
        return 'ground', True, ground_problem(rng)
    if m < .5:
        from .C22 import lits_of, problem
        return 'literals', True, problem(rng, lits_of(rng, False))
    eq = rng.random() < .3
    fam, pr = pick(rng, eq)
    return fam, eq, pr


def verdict(r):
    return 'yes' if claims(r) else 'no' if refutes(r) else 'error' if not r.timeout and r.rc != 0 else None


def anomaly(r):
    return '[Anomaly]' in r.out or 'missing hypothesis' in r.out + r.err or 'Mods/' in r.err


def run(ctx):
    ctx.rule = ('generated untyped problem that the prover decides, run several times under one search option set with varying GOMAXPROCS, -core_limit, '
                'CPU pinning and output options (in the thorough tier also a race-instrumented build, whose schedules differ); a case fails when two runs give opposite verdicts, '
                'or one run that needs no further work than another does not stop (10 s for a run that took 0.2 s); '
                'non-trivial = at least three runs gave a verdict; distinct by problem and options')
    goe = Runner(build_goeland(), ctx.tmp)
    rgoe = goe if ctx.quick else Runner(build_goeland(race=True), ctx.tmp)

    def vary(rng, eq):
        o = list(rng.choice(OUT))
        if rng.random() < .3:
            o += ['-core_limit', str(rng.choice([1, 2, 4]))]
        return o, str(rng.choice([1, 1, 2, 3, 8])), rng.random() < .3, not ctx.quick and rng.random() < .12

    def once(text, opts, var, timeout):
        o, procs, pin, race = var
        if pin:      # one processor for all threads: other interleavings than time slices on several
            prev = os.sched_getaffinity(0)
            os.sched_setaffinity(0, {random.choice(sorted(prev))})
            try:
                return (rgoe if race else goe)(text, opts + o, timeout=timeout * (5 if race else 1), procs=procs)
            finally:
                os.sched_setaffinity(0, prev)
        return (rgoe if race else goe)(text, opts + o, timeout=timeout * (5 if race else 1), procs=procs, env={'GORACE': 'halt_on_error=0'})

    def case(i):
        rng = ctx.rng('c07', i)
        fam, eq, pr = decided(rng)
        opts = list(rng.choice(EQB if eq else BASE))
        t0 = time.time()
        r0 = goe(pr.text(), opts, timeout=.25)
        v0 = verdict(r0)
        if v0 is None or (v0 == 'error' and anomaly(r0)):     # crashes are the business of C26
            return dict(cls='no verdict: ' + fam)
        w0 = r0.wall
        seen = [(v0, [], 'plain')]
        bad = None
        for _ in range(4):
            var = vary(rng, eq)
            if '-core_limit' in opts + var[0] and '-core_limit' in opts:
                var = ([o for o in var[0] if o not in ('-core_limit', '1', '2', '4')],) + var[1:]
            r = once(pr.text(), opts, var, 2)
            v = verdict(r)
            if v == 'error' and anomaly(r):     # crashes in exports are the business of C26
                v = None
            elif v is None and w0 < .2 and decidable(pr):
                r = once(pr.text(), opts, var, 12)
                v = verdict(r)
                if v is None:
                    bad = 'stops under %s in %.2f s but not in 12 s under %s' % (opts, w0, var)
            seen.append((v, var[0], 'procs=%s pinned=%s race=%s' % var[1:]))
            if v and v0 and v != v0 and not bad:
                bad = 'verdict %s under %s, but %s with %s' % (v0, opts, v, var)
            if bad:
                break
        out = dict(cls=fam, key=(pr.text(), opts), nontriv=sum(s[0] is not None for s in seen) >= 3, sample={'options': opts, 'problem': pr.text(), 'runs': seen})
        if bad:
            out['bad'] = ('%s on\n%s' % (bad, pr.text()), dict(problem=pr.text(), options=opts, var=[var[0], var[1], var[2], var[3]], first=v0))
        return out

    def decidable(pr):
        return not any(nquant(f) for f in pr.all_forms()) and not symbols(pr.all_forms())[2]
    drive(ctx, case, (5000, 100000), (45, 1200))


def replay(ctx, rep):
    goe = Runner(build_goeland(), ctx.tmp)
    seen = set()
    for k in range(30):
        o, procs = (rep['var'][0], rep['var'][1]) if k % 2 else ([], str(1 + k % 4))
        r = goe(rep['problem'], rep['options'] + o, timeout=12, procs=procs)
        v = verdict(r)
        if v and not (v == 'error' and anomaly(r)):
            seen.add(v)
    return 'verdicts %s' % sorted(seen) if len(seen) > 1 else None
