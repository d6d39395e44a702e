"""A theorem is never refuted."""
from ..driver import *
from ..verdict import *


def run(ctx):
    ctx.rule = ('generated untyped problem, with and without equality, whose refutation set z3 proves unsatisfiable, run under one option set '
                'without any limit on the search; non-trivial = certified unsatisfiable and the prover gave a verdict (so it may only be '
                'the positive one); distinct by problem text and options')
    goe = Runner(build_goeland(), ctx.tmp)

    def case(i):
        rng = ctx.rng('c03', i)
        eq = i % 5 in (1, 3)
        if i % 5 == 4:
            fam, pr = 'ground', ground_problem(rng)
            eq = True
        else:
            fam, pr = pick(rng, eq)
        opts = [o for o in rng.choice(EQMODES if eq else MODES) if o != '-noeq']
        k, _ = classify(rng, pr, maxn=2, thm_ms=250)
        if k != 'thm':
            return dict(cls='skipped:' + fam)
        r = goe(pr.text(), opts, timeout=2)
        out = dict(cls='thm:' + fam, key=(pr.text(), opts), inc=r.res is None, sample={'options': opts, 'problem': pr.text(), 'verdict': r.szs})
        if refutes(r):
            out['bad'] = ('%s reported under %s for a theorem' % (r.szs, opts), dict(problem=pr.text(), options=opts))
            out['prob'], out['opts'] = pr, opts
        return out

    def shr(o):
        def isbad(p):
            return refutes(goe(p.text(), o['opts'], timeout=3)) and classify(random.Random(5), p, maxn=2, thm_ms=500)[0] == 'thm'
        p = shrink(o['prob'], isbad, deadline=time.time() + 40)
        return ('NOT VALID reported under %s for the theorem\n%s' % (o['opts'], p.text()), dict(problem=p.text(), options=o['opts'], original=o['prob'].text()))
    drive(ctx, case, (6000, 100000), (60, 1300), shr)


def ground_problem(rng):
    """No variables: the search space is finite, so the prover stops on its own."""
    consts = ['a', 'b', 'c', 'd'][:rng.randint(2, 4)]
    sig = Sig(consts, rng.choice([{}, {'f': 1}, {'f': 1, 'g': 2}]), {'p': 1, 'q': 2, 'r': 0}, rng.random() < .8)
    axs = [gen_form(rng, sig, rng.randint(1, 3), quant=False) for _ in range(rng.randint(1, 4))]
    return Problem(axs, gen_form(rng, sig, rng.randint(1, 3), quant=False) if rng.random() < .8 else None)


def replay(ctx, rep):
    goe = Runner(build_goeland(), ctx.tmp)
    for t in (rep['problem'], rep.get('original', rep['problem'])):
        for _ in range(5):
            r = goe(t, rep['options'], timeout=10)
            if refutes(r):
                return '%s on\n%s' % (r.szs, t)
    return None
