"""Propositional problems are decided, the right way, and the search stops."""
import itertools
from ..driver import *
from ..verdict import *

PMODES = [[], [], ['-inner'], ['-preinner'], ['-flatten'], ['-completeness'], ['-completeness', '-flatten'], ['-noeq'], ['-core_limit', '1'],
          ['-flatten', '-preinner'], ['-one_step'], ['-sateq'], ['-eagereq']]


def truth(pr):
    """True when the refutation set is unsatisfiable (all valuations)."""
    fs = pr.refutation_set()
    _, ps, _ = symbols(fs)
    names = sorted(ps)
    for bits in itertools.product((0, 1), repeat=len(names)):
        m = Model(1, {}, {n: ({()} if b else set()) for n, b in zip(names, bits)})
        if all(m.ev(f) for f in fs):
            return False
    return True


def gen(rng):
    n = rng.choice([1, 2, 3, 4, 5, 6])
    names = ['p', 'q', 'r', 's', 't', 'u'][:n]
    sig = Sig([], {}, {p: 0 for p in names}, False)
    m = rng.random()
    if m < .35:      # random clauses near the threshold
        k = rng.choice([2, 3])
        cl = []
        for _ in range(int(n * rng.choice([1.5, 2, 3, 4.3])) + 1):
            ls = [P(rng.choice(names)) for _ in range(k)]
            cl.append(Or(*[Not(a) if rng.random() < .5 else a for a in ls]))
        return Problem(cl[:9], None) if rng.random() < .5 else Problem(cl[:8], Not(cl[8]) if len(cl) > 8 else Not(Or(P(names[0]), P(names[-1]))))
    if m < .5:       # equivalent formulas, possibly mutated
        f = gen_form(rng, sig, rng.randint(2, 6), quant=False)
        g = equiv_rewrite(rng, f)
        if rng.random() < .4:
            g = mutate(rng, g)
        return Problem([], Equ(f, g)) if rng.random() < .5 else Problem([f], g)
    if m < .6:       # chains of equivalences
        xs = [P(rng.choice(names)) for _ in range(rng.randint(2, 5))]
        f = xs[0]
        for x in xs[1:]:
            f = (rng.choice(['equ', 'equ', 'xor', 'imp']), f, Not(x) if rng.random() < .3 else x)
        rng.shuffle(xs)
        g = xs[0]
        for x in xs[1:]:
            g = (rng.choice(['equ', 'xor']), g, x)
        return Problem([f], g)
    return gen_problem(rng, max_ax=4, budget=rng.choice([6, 12, 20]), conj=rng.random() < .8, prop=True, sig=sig)[0]


def run(ctx):
    ctx.rule = ('generated propositional problem (random clauses, equivalences and mutations, chains of <=>, random formulas with all the '
                'connectives) decided by truth table, run under one option set without limits; non-trivial = contains a connective; '
                'every run must stop and give the verdict of the truth table; distinct by problem text and options')
    goe = Runner(build_goeland(), ctx.tmp)

    def judge(pr, opts):
        want = truth(pr)
        for t in (5, 20, 60):
            r = goe(pr.text(), opts, timeout=t)
            if not r.timeout:
                break
        if r.timeout:
            return 'no verdict in 60 s'
        if want and not (r.res == 'VALID' and claims(r)):
            return 'valid, but the prover says %s / %s (exit %s)' % (r.res, r.szs, r.rc)
        if not want and not (r.res == 'NOT VALID' and refutes(r)):
            return 'not valid, but the prover says %s / %s (exit %s)' % (r.res, r.szs, r.rc)
        return None

    def case(i):
        rng = ctx.rng('c05', i)
        pr, opts = gen(rng), rng.choice(PMODES)
        b = judge(pr, opts)
        out = dict(cls='valid' if truth(pr) else 'not valid', key=(pr.text(), opts), nontriv=any(f[0] not in ('p', 'not', 'top', 'bot') for f in pr.all_forms()),
                   sample={'options': opts, 'problem': pr.text(), 'valid': truth(pr)})
        if b:
            out['bad'] = (b, dict(problem=pr.text(), options=opts, valid=truth(pr)))
            out['prob'], out['opts'] = pr, opts
        return out

    def shr(o):
        def isbad(p):
            r = goe(p.text(), o['opts'], timeout=5)
            return r.res != ('VALID' if truth(p) else 'NOT VALID')
        p = shrink(o['prob'], isbad, deadline=time.time() + 40)
        return ('%s under %s; smallest:\n%s' % (o['bad'][0], o['opts'], p.text()), dict(problem=p.text(), options=o['opts'], valid=truth(p), original=o['prob'].text()))
    drive(ctx, case, (9000, 300000), (35, 1000), shr)


def replay(ctx, rep):
    goe = Runner(build_goeland(), ctx.tmp)
    r = goe(rep['problem'], rep['options'], timeout=30)
    return None if r.res == ('VALID' if rep['valid'] else 'NOT VALID') else 'verdict %s on\n%s' % (r.res, rep['problem'])
