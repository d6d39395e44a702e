"""Small theorems are proved."""
from ..driver import *
from ..verdict import *

# family -> tolerated share of certified theorems without a proof in the time given (several times what the unchanged prover shows)
TOL = {'wide': .10, 'twins': .06, 'wide=': .22, 'eqs=': .10, 'random=': .11, 'nested=': .08, 'mutant=': .07, 'twins=': .07, 'clauses=': .06,
       'prefix=': .06}
DEFTOL = .035
CMODES = [['-inner'], ['-preinner'], ['-flatten'], ['-completeness'], ['-core_limit', '1'], [], [], []]
CEQ = [['-inner'], ['-preinner'], ['-flatten'], ['-sateq'], ['-eagereq'], [], [], []]


def templates(rng):
    """Theorems whose proof is short whatever the sizes drawn here."""
    X, Y, Z, U = V('X'), V('Y'), V('Z'), V('U')
    a, b, c = F('a'), F('b'), F('c')

    def p(*t):
        return P('p', *t)

    def r(*t):
        return P('r', *t)
    n = rng.randint(1, 4)
    k = rng.randrange(16)
    if k == 0:      # implication chain over one individual
        ps = ['p%d' % i for i in range(n + 2)]
        return Problem([All(['X'], Imp(P(x, X), P(y, X))) for x, y in zip(ps, ps[1:])] + [P(ps[0], a)], P(ps[-1], a)), False
    if k == 1:      # drinker
        ar = rng.choice([1, 2])
        return Problem([], Ex(['X'], Imp(p(X), All(['Y'], p(Y)))) if ar == 1 else Ex(['X'], All(['Y'], Imp(r(X, X), Or(r(X, X), p(Y)))))), False
    if k == 2:      # quantifier exchange
        return Problem([Ex(['X'], All(['Y'], r(X, Y)))], All(['Y'], Ex(['X'], r(X, Y)))), False
    if k == 3:      # two instances of one axiom
        t = F('f', a)
        return Problem([p(a), All(['X'], Imp(p(X), p(F('f', X))))], p(F('f', t))), False
    if k == 4:      # a unit clause against a big disjunction
        cs = [F('c%d' % i) for i in range(n + 1)]
        return Problem([Or(*[p(x) for x in cs]), All(['X'], Not(p(X)))], None), False
    if k == 5:      # case split on constants
        return Problem([Or(p(a), p(b)), All(['X'], Imp(p(X), P('q', X)))], Ex(['X'], P('q', X))), False
    if k == 6:      # nested Skolem functions
        return Problem([All(['X'], Ex(['Y'], r(X, Y))), All(['X', 'Y'], Imp(r(X, Y), P('s', Y, X)))], All(['X'], Ex(['Y'], P('s', Y, X)))), False
    if k == 7:      # transitivity used once
        return Problem([All(['X', 'Y', 'Z'], Imp(And(r(X, Y), r(Y, Z)), r(X, Z))), r(a, b), r(b, c)], r(a, c)), False
    if k == 8:      # big conjunction in, one conjunct out
        xs = [P('q%d' % i, F('c%d' % i)) for i in range(n + 2)]
        return Problem([And(*xs)], rng.choice(xs)), False
    if k == 9:      # unification of deep terms
        t = X
        s = F('g', a, b)
        for _ in range(n):
            t, s = F('f', t), F('f', s)
        return Problem([All(['X'], p(t))], p(s)), False
    if k == 10:     # Russell
        return Problem([], Not(Ex(['X'], All(['Y'], Equ(r(Y, X), Not(r(Y, Y))))))), False
    if k == 11:     # equality chain
        cs = [F('c%d' % i) for i in range(n + 2)]
        es = [Eq(x, y) if rng.random() < .5 else Eq(y, x) for x, y in zip(cs, cs[1:])]
        rng.shuffle(es)
        return Problem(es + [p(cs[0])], p(cs[-1])), True
    if k == 12:     # congruence
        return Problem([Eq(a, b)], Eq(F('f', F('g', a, b)), F('f', F('g', b, a)))), True
    if k == 13:     # reflexivity under a quantifier
        return Problem([], rng.choice([Ex(['X'], Eq(X, X)), All(['X'], Ex(['Y'], Eq(X, Y))), All(['X'], Eq(F('f', X), F('f', X)))])), True
    if k == 14:     # rewriting with a universal equation
        return Problem([All(['X'], Eq(F('f', X), X)), p(a)], p(F('f', a))), True
    return Problem([All(['X'], Imp(p(X), Eq(X, a))), p(b)], Eq(a, b)), True


def rename(rng, pr):
    ren = {}
    for nm in 'p q r s f g a b c'.split():
        ren[nm] = nm + rng.choice(['', '', 'x', '1', '_k', 'Long'])

    def t(x):
        return x if x[0] == 'v' else ('f', ren.get(x[1], x[1]), tuple(t(y) for y in x[2]))

    def f(x):
        if x[0] == 'p':
            return ('p', ren.get(x[1], x[1]), tuple(t(y) for y in x[2]))
        if x[0] == '=':
            return ('=', t(x[1]), t(x[2]))
        return rebuild(x, [f(y) for y in subforms(x)])
    axs = [f(x) for x in pr.axioms]
    rng.shuffle(axs)
    return Problem(axs, f(pr.conj) if pr.conj else None)


def run(ctx):
    ctx.rule = ('two kinds of generated theorems: instances of 16 schemes with short proofs (each has to be proved, with up to 60 s on a retry), '
                'and random problems that z3 proves unsatisfiable (per family and per equality, the share without a proof after 3 s and a '
                '12 s retry has to stay below the tolerance); non-trivial = certified theorem; distinct by problem text and options')
    goe = Runner(build_goeland(), ctx.tmp)

    def case(i):
        rng = ctx.rng('c04', i)
        if i % 6 == 0:
            pr, eq = templates(rng)
            pr = rename(rng, pr)
            opts = rng.choice(CEQ if eq else CMODES)
            for t in (5, 20, 60):
                r = goe(pr.text(), opts, timeout=t)
                if r.res == 'VALID':
                    break
            out = dict(cls='scheme', key=(pr.text(), opts), sample={'options': opts, 'problem': pr.text(), 'verdict': r.szs})
            if r.res != 'VALID':
                out['bad'] = ('no proof of a short theorem under %s (%s):\n%s' % (opts, r.szs, pr.text()), dict(problem=pr.text(), options=opts))
            return out
        eq = i % 2 == 1
        fam, pr = pick(rng, eq)
        opts = rng.choice(CEQ if eq else CMODES)
        if classify(rng, pr, maxn=2, thm_ms=250)[0] != 'thm':
            return dict(cls='skipped')
        r = goe(pr.text(), opts, timeout=3)
        if r.res != 'VALID':
            r = goe(pr.text(), opts, timeout=12)
        return dict(cls='%s%s:%s' % (fam, '=' if eq else '', 'proved' if r.res == 'VALID' else 'missed'), key=(pr.text(), opts), fam=fam + '=' * eq,
                    nontriv=True, miss=r.res != 'VALID', text=pr.text(), opts=opts, sample={'options': opts, 'problem': pr.text(), 'verdict': r.szs})
    tot, miss, ex = {}, {}, {}

    def wrap(o):
        return o
    bad = []
    for o in ctx.pmap(case, range(ctx.n(7000, 60000)), cap_s=ctx.n(65, 1300), stop_on=lambda: len(bad) >= 2):
        if 'key' not in o:
            ctx.cls(o['cls'])
            continue
        ctx.record(o['key'], True, o['sample'], o['cls'])
        if 'fam' in o:
            tot[o['fam']] = tot.get(o['fam'], 0) + 1
            if o['miss']:
                miss[o['fam']] = miss.get(o['fam'], 0) + 1
                ex.setdefault(o['fam'], []).append((o['text'], o['opts']))
        if o.get('bad'):
            bad.append(o)
            ctx.violation(*o['bad'])
    ctx.extra['missed'] = {k: '%d of %d' % (miss.get(k, 0), tot[k]) for k in sorted(tot)}
    for k in tot:
        lim = max(4, TOL.get(k, DEFTOL) * tot[k])
        if miss.get(k, 0) > lim:
            ctx.violation('%d of %d certified theorems of the family %s are not proved (tolerated: %.1f); for instance\n%s' % (
                miss[k], tot[k], k, lim, ex[k][0][0]), dict(batch=ex[k][:40], of=tot[k], tolerated=lim))
    small = [x for k in ex for x in ex[k] if len(x[0]) < 200]
    ctx.extra['missed_small'] = small[:10]


def replay(ctx, rep):
    goe = Runner(build_goeland(), ctx.tmp)
    for t, o in rep.get('batch', [(rep.get('problem'), rep.get('options'))])[:10]:
        if goe(t, o, timeout=30).res == 'VALID':
            continue
        return 'no proof of\n' + t
    return None
