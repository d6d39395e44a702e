"""A bounded search stops within its bound."""
from ..driver import *
from ..verdict import *

OPTS = [[], [], ['-inner'], ['-preinner'], ['-flatten'], ['-core_limit', '1'], ['-preinner', '-flatten']]


def run(ctx):
    ctx.rule = ('generated untyped problem without equality, run with -one_step and -l 1, then 2, then 3 (4 in the thorough tier) under one Skolemisation or '
                'flattening mode; every run at -l 1 and 2 must stop by itself (60 s) with a verdict; higher limits must give a verdict when they stop; '
                'non-trivial = at least one quantified formula; distinct by problem and options')
    goe = Runner(build_goeland(), ctx.tmp)

    def stops(text, opts):
        for t in (4, 60):
            r = goe(text, opts, timeout=t)
            if not r.timeout:
                break
        return r

    def judge(pr, opts, top):
        seen = []
        for l in range(1, top + 1):
            r = goe(pr.text(), opts + ['-l', str(l), '-one_step'], timeout=4)
            if r.timeout:
                r = goe(pr.text(), opts + ['-l', str(l), '-one_step'], timeout=60) if l <= 2 else r
                if r.timeout:
                    return seen, ('no end in 60 s at -l %d' % l) if l <= 2 else None
            if r.res is None:
                return seen, 'no verdict at -l %d: exit %s' % (l, r.rc)
            seen.append(r.res)
        return seen, None

    def case(i):
        rng = ctx.rng('c27', i)
        fam, pr = pick(rng, False)
        opts = rng.choice(OPTS)
        seen, b = judge(pr, opts, ctx.n(3, 4))
        out = dict(cls=fam, key=(pr.text(), opts), nontriv=any(nquant(f) for f in pr.all_forms()), inc=not seen,
                   sample={'options': opts, 'problem': pr.text(), 'verdicts by limit': seen})
        if b:
            out['bad'] = ('%s under %s on\n%s' % (b, opts, pr.text()), dict(problem=pr.text(), options=opts))
            out['prob'], out['opts'] = pr, opts
        return out
    drive(ctx, case, (4000, 100000), (40, 1000))


def replay(ctx, rep):
    goe = Runner(build_goeland(), ctx.tmp)
    for l in range(1, 5):
        r = goe(rep['problem'], rep['options'] + ['-l', str(l), '-one_step'], timeout=60)
        if r.timeout and l <= 2:
            return 'no end at -l %d' % l
        if not r.timeout and r.res is None:
            return 'no verdict at -l %d: exit %s' % (l, r.rc)
    return None
