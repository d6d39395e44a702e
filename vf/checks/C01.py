"""Soundness of the verdict on untyped problems without equality."""
from ..driver import *
from ..verdict import *

EQ = False
MODESET = MODES
COUNT = (7000, 120000)
CAP = (80, 1500)


def limit(rng):
    return ['-l', str(rng.choice([2, 3, 4, 5])), '-one_step']


class Case:
    def __init__(self, ctx, eq, modes):
        self.run = Runner(build_goeland(), ctx.tmp)
        self.ctx, self.eq, self.modes = ctx, eq, modes

    def __call__(self, i):
        rng = self.ctx.rng('p', i)
        fam, pr = pick(rng, self.eq)
        opts = rng.choice(self.modes) + limit(rng)
        k, m = classify(rng, pr, want_thm=False)
        if k != 'non':
            return dict(i=i, cls='skipped:' + fam)
        txt = pr.text()
        r = self.run(txt, opts, timeout=3)
        out = dict(i=i, cls='non:' + fam, key=(txt, opts), sample={'options': opts, 'problem': txt, 'countermodel': str(m), 'verdict': r.szs})
        if claims(r):
            out['bad'] = dict(options=opts, verdict=r.szs, output=r.out[-400:])
            out['prob'] = pr
        elif r.timeout or r.res is None:
            out['inc'] = True
        return out


def run(ctx):
    ctx.rule = ('generated untyped problem %s equality (families random/wide/clauses/prefix/mutant/prop) run under one option set with a bounded '
                'search; non-trivial = an explicit finite countermodel was found and re-evaluated, so no Theorem/Unsatisfiable may be '
                'reported, and the prover gave a verdict; distinct by problem text and options' % ('with' if EQ else 'without'))
    do(ctx, EQ, MODESET, COUNT, CAP)


def do(ctx, eq, modes, count, cap):
    case = Case(ctx, eq, modes)
    bad = []
    for o in ctx.pmap(case, range(ctx.n(*count)), cap_s=ctx.n(*cap), stop_on=lambda: len(bad) >= 3):
        if 'key' in o:
            ctx.record(o['key'], not o.get('inc'), o['sample'], o['cls'])
            ctx.inconclusive += bool(o.get('inc'))
            if 'bad' in o:
                bad.append(o)
        else:
            ctx.cls(o['cls'])
    for o in bad[:2]:
        opts = o['bad']['options']

        def isbad(p):
            k, m = classify(random.Random(7), p, want_thm=False)
            return k == 'non' and any(claims(case.run(p.text(), opts, timeout=3)) for _ in range(2))
        p = shrink(o['prob'], isbad, deadline=time.time() + 40)
        m = classify(random.Random(7), p, want_thm=False)[1]
        ctx.violation('%s reported under %s for a problem with countermodel %s:\n%s' % (o['bad']['verdict'], opts, m, p.text()),
                      dict(problem=p.text(), options=opts, countermodel=str(m), original=o['prob'].text()))


def replay(ctx, rep):
    run_ = Runner(build_goeland(), ctx.tmp)
    for t in (rep['problem'], rep['original']):
        for _ in range(5):
            r = run_(t, rep['options'], timeout=10)
            if claims(r):
                return '%s on\n%s' % (r.szs, t)
    return None
