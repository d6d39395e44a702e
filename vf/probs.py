"""Problem families for the end-to-end checks, and their independent classification."""
from .fol import *
from .gen import *


def wide_sig(rng, eq=False):
    """A signature with higher arities and more symbols than random_sig's."""
    consts = ['a', 'b', 'c', 'd', 'e'][:rng.randint(1, 5)]
    funcs = {}
    for nm, ar in (('f', 1), ('g', 2), ('h', 3), ('k', 1)):
        if rng.random() < 0.4:
            funcs[nm] = ar
    preds = {}
    for nm in ['p', 'q', 'r', 's', 't', 'u'][:rng.randint(1, 6)]:
        preds[nm] = rng.choice([0, 1, 1, 2, 2, 3, 4])
    return Sig(consts, funcs, preds, eq)


def fam_random(rng, eq):
    return gen_problem(rng, eq=eq, conj=rng.random() < .85)[0]


def fam_wide(rng, eq):
    return gen_problem(rng, eq=eq, max_ax=5, budget=rng.choice([6, 10, 14]), conj=rng.random() < .8, sig=wide_sig(rng, eq))[0]


def fam_prop(rng, eq):
    sig = Sig([], {}, {p: 0 for p in ['p', 'q', 'r', 's', 't', 'u'][:rng.randint(1, 6)]}, False)
    return gen_problem(rng, max_ax=4, budget=rng.choice([6, 12, 24]), conj=rng.random() < .8, prop=True, sig=sig)[0]


def lit(rng, sig, vs, d=1):
    a = gen_atom(rng, sig, vs, d)
    return Not(a) if rng.random() < .45 else a


def fam_clauses(rng, eq):
    """Universally closed disjunctions with shared variables plus ground-ish units: what makes several branches agree
    on one instance."""
    sig = random_sig(rng, eq)
    if not sig.consts:
        sig.consts = ['a', 'b']
    if all(v == 0 for v in sig.preds.values()):
        sig.preds['q'] = 1
    axs = []
    for _ in range(rng.randint(1, 3)):
        vs = ['X', 'Y', 'Z'][:rng.randint(1, 3)]
        body = [lit(rng, sig, vs) for _ in range(rng.randint(2, 4))]
        f = Or(*body)
        if rng.random() < .2:
            f = Imp(body[0], Or(*body[1:]) if len(body) > 2 else body[1])
        elif rng.random() < .2:
            f = Or(And(body[0], lit(rng, sig, vs)), *body[1:])
        fv = [v for v in vs if v in free_vars(f)]
        axs.append(All(fv, f) if fv else f)
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < .7:
            axs.append(lit(rng, sig, []))
        elif r < .85:
            f = lit(rng, sig, ['X'])
            axs.append(Ex(['X'], f) if 'X' in free_vars(f) else f)
        else:
            f = lit(rng, sig, ['X', 'Y'])
            fv = sorted(free_vars(f))
            axs.append(All(fv, f) if fv else f)
    rng.shuffle(axs)
    if rng.random() < .5:
        return Problem(axs[:-1], Not(axs[-1])) if len(axs) > 1 else Problem([], Not(axs[0]))
    return Problem(axs, None)


def fam_prefix(rng, eq):
    """Same (or nearly the same) matrix under two quantifier prefixes: valid in one direction only, in general."""
    n = rng.randint(2, 3)
    vs = ['X', 'Y', 'Z'][:n]
    sig = Sig(['a'] if rng.random() < .3 else [], {'f': 1} if rng.random() < .3 else {}, {'r': n, 'p': 1}, eq)
    m = rng.random()
    if m < .4:
        mat = P('r', *[V(v) for v in vs])
    else:
        mat = gen_form(rng, sig, rng.randint(1, 3), vs=vs, quant=False, rich=False)

    def close(order, quants, g):
        for v, q in reversed(list(zip(order, quants))):
            g = (q, (v,), g)
        return g
    q1 = [rng.choice(['all', 'ex']) for _ in vs]
    qm = dict(zip(vs, q1))
    o2 = vs[:]
    rng.shuffle(o2)
    q2 = [qm[v] for v in o2]
    if rng.random() < .4:
        i = rng.randrange(n)
        q2[i] = 'ex' if q2[i] == 'all' else 'all'
    f1, f2 = close(vs, q1, mat), close(o2, q2, mat)
    r = rng.random()
    if r < .5:
        return Problem([], Imp(f1, f2))
    if r < .8:
        return Problem([f1], f2)
    if r < .9:
        return Problem([f1, Not(f2)], None)
    return Problem([], Equ(f1, f2))


def fam_mutant(rng, eq):
    """A valid implication between a formula and a rewriting of it, then one small mutation."""
    sig = random_sig(rng, eq)
    f = gen_form(rng, sig, rng.randint(2, 5), rich=True)
    g = equiv_rewrite(rng, f)
    for _ in range(rng.randint(0, 2)):
        g = mutate(rng, g)
    if free_vars(g) or free_vars(f):
        return fam_random(rng, eq)
    r = rng.random()
    if r < .5:
        return Problem([f], g)
    if r < .8:
        return Problem([], Imp(f, g))
    return Problem([], Equ(f, g))


def equiv_rewrite(rng, f):
    """A logically equivalent formula."""
    k = f[0]
    if k in ('p', '=', 'top', 'bot'):
        if k == '=' and rng.random() < .5:
            return ('=', f[2], f[1])
        return Not(Not(f)) if rng.random() < .1 else f
    if k == 'not':
        g = f[1]
        if rng.random() < .6:
            if g[0] == 'and':
                return Or(*[equiv_rewrite(rng, Not(x)) for x in g[1]])
            if g[0] == 'or':
                return And(*[equiv_rewrite(rng, Not(x)) for x in g[1]])
            if g[0] == 'all':
                return Ex(g[1], equiv_rewrite(rng, Not(g[2])))
            if g[0] == 'ex':
                return All(g[1], equiv_rewrite(rng, Not(g[2])))
            if g[0] == 'imp':
                return And(equiv_rewrite(rng, g[1]), equiv_rewrite(rng, Not(g[2])))
        return Not(equiv_rewrite(rng, g))
    if k in ('and', 'or'):
        xs = [equiv_rewrite(rng, g) for g in f[1]]
        rng.shuffle(xs)
        return (k, tuple(xs))
    if k in BIN:
        a, b = equiv_rewrite(rng, f[1]), equiv_rewrite(rng, f[2])
        r = rng.random()
        if k == 'imp':
            return Or(Not(a), b) if r < .4 else (Imp(Not(b), Not(a)) if r < .6 else (k, a, b))
        if k == 'equ':
            return And(Imp(a, b), Imp(b, a)) if r < .4 else (k, b, a)
        if k == 'xor':
            return Not(Equ(a, b)) if r < .5 else (k, b, a)
        if k == 'nand':
            return Not(And(a, b))
        if k == 'nor':
            return Not(Or(a, b))
        return Imp(b, a)
    g = equiv_rewrite(rng, f[2])
    vs = list(f[1])
    rng.shuffle(vs)
    if rng.random() < .3 and len(vs) > 1:
        return (k, (vs[0],), (k, tuple(vs[1:]), g))
    return (k, tuple(vs), g)


def mutate(rng, f):
    """One small, usually meaning-changing edit."""
    k = f[0]
    subs = subforms(f)
    if subs and rng.random() < .65:
        i = rng.randrange(len(subs))
        new = list(subs)
        new[i] = mutate(rng, subs[i])
        return rebuild(f, new)
    if k == 'p':
        if f[2] and rng.random() < .7:
            i = rng.randrange(len(f[2]))
            j = rng.randrange(len(f[2]))
            a = list(f[2])
            a[i] = a[j] if a[i] != a[j] else (F('a') if a[i] != F('a') else a[i])
            return ('p', f[1], tuple(a))
        return Not(f)
    if k == 'and':
        return ('or', f[1])
    if k == 'or':
        return ('and', f[1])
    if k == 'all':
        return ('ex', f[1], f[2])
    if k == 'ex':
        return ('all', f[1], f[2])
    if k == 'imp':
        return rng.choice([('rimp', f[1], f[2]), ('equ', f[1], f[2]), ('or', (f[1], f[2]))])
    if k == 'equ':
        return rng.choice([('xor', f[1], f[2]), ('imp', f[1], f[2])])
    if k in BIN:
        return ('imp', f[1], f[2])
    if k == 'not':
        return f[1]
    return Not(f)


def rebuild(f, subs):
    k = f[0]
    if k == 'not':
        return ('not', subs[0])
    if k in ('and', 'or'):
        return (k, tuple(subs))
    if k in BIN:
        return (k, subs[0], subs[1])
    if k in ('all', 'ex'):
        return (k, f[1], subs[0])
    return f


def part(rng, sig, vs, d):
    """A disjunct: literals and quantified formulas over further variables, mixed with the outer ones."""
    k = rng.randint(1, 3)
    xs = []
    for _ in range(k):
        r = rng.random()
        if r < .45 or d == 0:
            xs.append(lit(rng, sig, vs))
            continue
        new = [v for v in ['Z', 'U', 'W', 'Z1', 'U1', 'W1', 'Z2', 'U2'] if v not in vs][:rng.randint(1, 2)]
        inner = vs + new if rng.random() < .7 else new
        if rng.random() < .6:
            b = lit(rng, sig, inner)
        else:
            b = Or(*[part(rng, sig, inner, d - 1) for _ in range(rng.randint(2, 3))])
        fv = [v for v in new if v in free_vars(b)]
        xs.append((rng.choice(['all', 'all', 'ex']), tuple(fv), b) if fv else b)
    return And(*xs) if len(xs) > 1 else xs[0]


def fam_nested(rng, eq):
    """Disjunctions below universal variables whose branches introduce metavariables and Skolem terms of their own."""
    sig = random_sig(rng, eq)
    if not sig.consts:
        sig.consts = ['a', 'b'][:rng.randint(1, 2)]
    if max(sig.preds.values()) < 2:
        sig.preds[rng.choice(sorted(sig.preds))] = 2
    vs = ['X', 'Y', 'V'][:rng.choice([1, 2, 2, 3])]
    body = Or(*[part(rng, sig, vs, 1 if rng.random() < .8 else 2) for _ in range(rng.randint(2, 3))])
    fv = [v for v in vs if v in free_vars(body)]
    axs = [All(fv, body) if fv else body]
    for _ in range(rng.randint(0, 3)):
        r = rng.random()
        if r < .6:
            axs.append(lit(rng, sig, []))
        else:
            f = lit(rng, sig, ['X', 'Y'])
            fv = sorted(free_vars(f))
            axs.append((rng.choice(['all', 'all', 'ex']), tuple(fv), f) if fv else f)
    rng.shuffle(axs)
    r = rng.random()
    if r < .3 and len(axs) > 1:
        return Problem(axs[:-1], Not(axs[-1]))
    if r < .5:
        return Problem([], Not(And(*axs) if len(axs) > 1 else axs[0]))
    return Problem(axs, None)


def swapvars(f, m):
    """Simultaneous renaming of variable occurrences (binders stay)."""
    k = f[0]

    def tt(t):
        if t[0] == 'v':
            return ('v', m.get(t[1], t[1]))
        return ('f', t[1], tuple(tt(a) for a in t[2]))
    if k == 'p':
        return ('p', f[1], tuple(tt(a) for a in f[2]))
    if k == '=':
        return ('=', tt(f[1]), tt(f[2]))
    if k in ('all', 'ex'):
        return (k, f[1], swapvars(f[2], m))
    return rebuild(f, [swapvars(g, m) for g in subforms(f)])


def fam_twins(rng, eq):
    """Existential formulas that differ only in how their bound variables are used, and a goal about one witness for all:
    what goes wrong when two of them are given the same Skolem symbol."""
    sig = Sig(['a'] if rng.random() < .2 else [], {'f': 1} if rng.random() < .2 else {}, {'p': 1, 'q': 1, 'r': 2}, eq)
    n = rng.choice([1, 1, 2])
    inner = ['U', 'V'][:n]
    qs = [rng.choice(['all', 'all', 'ex']) for _ in inner]
    k = rng.choice(['or', 'imp', 'and', 'or', 'equ'])
    vs = ['X'] + inner
    l = [lit(rng, sig, vs, 0), lit(rng, sig, vs, 0)]
    mat = (k, tuple(l)) if k in ('or', 'and') else (k, l[0], l[1])
    for _ in range(12):
        perm = vs[:]
        rng.shuffle(perm)
        mat2 = swapvars(mat, dict(zip(vs, perm)))
        if rng.random() < .2:
            mat2 = swapvars(mat, {rng.choice(vs): rng.choice(vs)})
        if mat2 != mat and len(free_vars(mat)) > 1:
            break
        l = [lit(rng, sig, vs, 0), lit(rng, sig, vs, 0)]
        mat = (k, tuple(l)) if k in ('or', 'and') else (k, l[0], l[1])

    def cl(m):
        for v, q in reversed(list(zip(inner, qs))):
            m = (q, (v,), m)
        return m
    a, b = cl(mat), cl(mat2)
    extra = [lit(rng, sig, [], 0)] if sig.consts and rng.random() < .5 else []
    outer = rng.random() < .2      # the pair below a universal variable
    if outer:
        w = swapvars(lit(rng, sig, ['W'], 0), {})
        ax = All(['W'], Or(w, Ex(['X'], a))) if 'W' in free_vars(w) else Ex(['X'], a)
        return Problem([ax, Ex(['X'], b)] + extra, Ex(['X'], And(a, b)))
    r = rng.random()
    if r < .5:
        return Problem([Ex(['X'], a), Ex(['X'], b)] + extra, Ex(['X'], And(a, b)))
    if r < .8:
        return Problem([Ex(['X'], a)] + extra, Ex(['X'], b))
    return Problem([Ex(['X'], a), All(['X'], Imp(And(a, b), P('k')))] + [Ex(['X'], b)] + extra, P('k'))


def fam_close(rng, eq):
    """Every disjunct below the universal variables can be closed on its own by a complementary literal (inside the branch or
    global, with variables of its own), so the verdict hangs on whether the branches agree on one instance."""
    vs = ['X', 'Y', 'V'][:rng.choice([1, 2, 2, 2, 3])]
    consts = ['a', 'b', 'c'][:rng.randint(1, 3)]
    fun = rng.random() < .3
    axs, parts = [], []

    def tm(pool, d=1):
        if fun and d and rng.random() < .2:
            return F('f', tm(pool, d - 1))
        return F(rng.choice(consts)) if not pool or rng.random() < .15 else V(rng.choice(pool))
    shared = rng.random() < .3
    for i in range(rng.choice([2, 2, 2, 3])):
        nm = 'p' if shared else 'pqr'[i]
        ar = 2 if shared else rng.choice([1, 2, 2, 3])
        neg = rng.random() < .5
        l = P(nm, *[tm(vs) for _ in range(ar)])
        new = ['Z', 'U', 'W'][:rng.randint(1, 3)]
        where = rng.random()
        if where < .5:      # closer inside the branch
            pool = new if rng.random() < .7 else new + vs
            c = P(nm, *[tm(pool) for _ in range(ar)])
        elif where < .75:   # global, universal
            c = P(nm, *[tm(new) for _ in range(ar)])
        else:               # global, ground
            c = P(nm, *[tm([]) for _ in range(ar)])
        fv = [v for v in new if v in free_vars(c)]
        l, c = (Not(l), c) if neg else (l, Not(c))
        if fv and rng.random() < .15:
            c = Or(c, lit(rng, Sig(consts, {}, {nm: ar}, False), fv))
        q = 'all' if rng.random() < .9 else 'ex'
        c = (q, tuple(fv), c) if fv else c
        if where < .5:
            xs = [l, c]
            rng.shuffle(xs)
            parts.append(And(*xs))
        else:
            parts.append(l)
            axs.append(c)
    body = Or(*parts)
    fv = [v for v in vs if v in free_vars(body)]
    axs.append(All(fv, body) if fv else body)
    rng.shuffle(axs)
    r = rng.random()
    if r < .3 and len(axs) > 1:
        return Problem(axs[:-1], Not(axs[-1]))
    if r < .5:
        return Problem([], Not(And(*axs) if len(axs) > 1 else axs[0]))
    return Problem(axs, None)


def fam_eqs(rng, eq):
    """Ground and universal equations with a goal that needs (or just misses) an instance."""
    consts = ['a', 'b', 'c', 'd', 'e'][:rng.randint(2, 5)]
    funcs = rng.choice([{}, {'f': 1}, {'f': 1}, {'g': 2}, {'f': 1, 'g': 2}])
    sig = Sig(consts, funcs, {'p': 1, 'q': 2}, True)

    def tm(vs, d):
        return gen_term(rng, sig, vs, d)
    axs = []
    for _ in range(rng.randint(0, 4)):
        axs.append(Eq(tm([], 2), tm([], 1)))
    for _ in range(rng.choice([0, 0, 1, 2])):
        vs = ['X', 'Y'][:rng.randint(1, 2)]
        f = Eq(tm(vs, 2), tm(vs, 1))
        if rng.random() < .3:
            f = Or(f, lit(rng, sig, vs, 1))
        fv = sorted(free_vars(f))
        axs.append(All(fv, f) if fv else f)
    for _ in range(rng.choice([0, 1, 2])):
        vs = [] if rng.random() < .6 else ['X']
        f = P('p', tm(vs, 1)) if rng.random() < .5 else P('q', tm(vs, 1), tm(vs, 1))
        f = Not(f) if rng.random() < .3 else f
        fv = sorted(free_vars(f))
        axs.append(All(fv, f) if fv else f)
    vs = ['X', 'Y', 'Z'][:rng.randint(0, 3)]
    gs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        r = rng.random()
        gs.append(Eq(tm(vs, 2), tm(vs, 2)) if r < .65 else P('p', tm(vs, 2)) if r < .85 else P('q', tm(vs, 1), tm(vs, 1)))
    g = gs[0] if len(gs) == 1 else (And(*gs) if rng.random() < .8 else Or(*gs))
    fv = sorted(free_vars(g))
    g = Ex(fv, g) if fv else g
    rng.shuffle(axs)
    return Problem(axs, g)


FAMS = [(fam_random, 4), (fam_wide, 3), (fam_clauses, 4), (fam_prefix, 2), (fam_mutant, 3), (fam_prop, 1), (fam_nested, 3), (fam_close, 6), (fam_twins, 2)]


def pick(rng, eq=False, fams=None):
    fams = fams or (FAMS + [(fam_eqs, 10)] if eq else FAMS)
    tot = sum(w for _, w in fams)
    x = rng.random() * tot
    for fam, w in fams:
        x -= w
        if x < 0:
            return fam.__name__[4:], fam(rng, eq)
    return fams[-1][0].__name__[4:], fams[-1][0](rng, eq)


_z = []


def z3i():
    if not _z:
        _z.append(Z3())
    return _z[0]


def classify(rng, prob, maxn=3, thm_ms=400, want_thm=True):
    """('non', Model) | ('thm', None) | ('unk', None) for: the axioms (with the negated conjecture) are unsatisfiable."""
    fs = prob.refutation_set()
    fn, pr, _ = symbols(prob.all_forms())
    cost = sum(maxn ** a for a in list(fn.values()) + list(pr.values()))
    if cost < 400:
        m = find_countermodel(rng, prob, 12, maxn)
        if m:
            return 'non', m
    for n in range(1, maxn + 1):
        m = finite_model(z3i(), fs, n)
        if m:
            return 'non', m
    if want_thm and z3i().unsat(fs, thm_ms) == 'unsat':
        return 'thm', None
    return 'unk', None
