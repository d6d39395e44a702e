"""Random formula / problem generators (all randomness from the rng passed in)."""
from .fol import *


class Sig:
    def __init__(self, consts, funcs, preds, eq):
        self.consts, self.funcs, self.preds, self.eq = consts, funcs, preds, eq

    def fn(self):
        d = {c: 0 for c in self.consts}
        d.update(self.funcs)
        return d


def random_sig(rng, eq=None, prop=False):
    if prop:
        return Sig([], {}, {p: 0 for p in 'pqrs'[:rng.randint(1, 4)]}, False)
    consts = ['a', 'b', 'c'][:rng.randint(0, 3)]
    funcs = {}
    if rng.random() < 0.5:
        funcs['f'] = 1
    if rng.random() < 0.2:
        funcs['g'] = 2
    preds = {}
    for nm in 'pqrs'[:rng.randint(1, 4)]:
        preds[nm] = rng.choice([0, 1, 1, 1, 2, 2])
    if eq is None:
        eq = rng.random() < 0.3
    return Sig(consts, funcs, preds, eq)


def gen_term(rng, sig, vs, depth):
    opts = []
    if vs:
        opts += ['v'] * 4
    if sig.consts:
        opts += ['c'] * 2
    if sig.funcs and depth > 0:
        opts += ['f'] * 2
    if not opts:
        if sig.consts:
            opts = ['c']
        else:
            return F('a')
    k = rng.choice(opts)
    if k == 'v':
        return V(rng.choice(vs))
    if k == 'c':
        return F(rng.choice(sig.consts))
    n = rng.choice(sorted(sig.funcs))
    return F(n, *[gen_term(rng, sig, vs, depth - 1) for _ in range(sig.funcs[n])])


def gen_atom(rng, sig, vs, tdepth=2):
    if sig.eq and rng.random() < 0.35 and (vs or sig.consts):
        return Eq(gen_term(rng, sig, vs, tdepth), gen_term(rng, sig, vs, tdepth))
    n = rng.choice(sorted(sig.preds))
    ar = sig.preds[n]
    return P(n, *[gen_term(rng, sig, vs, tdepth) for _ in range(ar)])


VNAMES = ['X', 'Y', 'Z', 'U', 'W', 'X1', 'Y1', 'Z1', 'X2', 'Y2', 'Z2']


def gen_form(rng, sig, budget, vs=(), quant=True, shadow=0.1, rich=True, nq=4):
    """budget ~ number of atoms"""
    vs = list(vs)
    r = rng.random()
    if quant and nq > 0 and r < (0.35 if vs else 0.6):
        k = rng.choice(['all', 'ex'])
        n = rng.choice([1, 1, 1, 2])
        new = []
        for _ in range(n):
            if vs and rng.random() < shadow:
                c = [v for v in vs if v not in new]
            else:
                c = [v for v in VNAMES if v not in vs and v not in new]
            if c:
                new.append(c[0] if rng.random() < 0.7 else rng.choice(c))
        if new:
            return (k, tuple(new), gen_form(rng, sig, budget, vs + [v for v in new if v not in vs], quant, shadow, rich, nq - len(new)))
    if budget <= 1:
        if rng.random() < 0.04 and rich:
            return rng.choice([('top',), ('bot',)])
        a = gen_atom(rng, sig, vs)
        return Not(a) if rng.random() < 0.3 else a
    if rng.random() < 0.12:
        return Not(gen_form(rng, sig, budget, vs, quant, shadow, rich, nq))
    k = rng.choice(['and', 'and', 'or', 'or', 'imp', 'imp', 'equ'] + (['xor', 'rimp', 'nand', 'nor'] if rich and rng.random() < 0.3 else []))
    if k in ('and', 'or'):
        m = min(budget, rng.choice([2, 2, 2, 3]))
        parts = split(rng, budget, m)
        return (k, tuple(gen_form(rng, sig, b, vs, quant, shadow, rich, nq) for b in parts))
    b1, b2 = split(rng, budget, 2)
    return (k, gen_form(rng, sig, b1, vs, quant, shadow, rich, nq), gen_form(rng, sig, b2, vs, quant, shadow, rich, nq))


def split(rng, n, m):
    parts = [1] * m
    for _ in range(n - m):
        parts[rng.randrange(m)] += 1
    return parts


def gen_problem(rng, eq=None, prop=False, max_ax=3, budget=8, conj=True, sig=None):
    sig = sig or random_sig(rng, eq, prop)
    nax = rng.randint(0, max_ax)
    if not conj:
        nax = max(1, nax)
    axs = [gen_form(rng, sig, rng.randint(1, max(1, budget // 2)), quant=not prop) for _ in range(nax)]
    c = gen_form(rng, sig, rng.randint(1, budget), quant=not prop) if conj else None
    return Problem(axs, c), sig


def find_countermodel(rng, prob, tries=60, maxn=3):
    fn, pr, _ = symbols(prob.all_forms())
    fs = prob.refutation_set()
    for i in range(tries):
        n = 1 + (i % maxn)
        m = random_model(rng, n, fn, pr)
        try:
            if all(m.ev(f) for f in fs):
                return m
        except KeyError:
            raise
    return None
