"""First-order formulas: representation, TPTP printing, finite-model evaluation, z3 translation.

terms   : ('v', name) | ('f', name, (args...))
formulas: ('p', name, (args...)) | ('=', s, t) | ('not', f) | ('and', (fs...)) | ('or', (fs...))
          ('imp', a, b) | ('equ', a, b) | ('xor', a, b) | ('rimp', a, b) | ('nand', a, b) | ('nor', a, b)
          ('all', (vars...), f) | ('ex', (vars...), f) | ('top',) | ('bot',)
"""
import itertools

BIN = {'imp': '=>', 'equ': '<=>', 'xor': '<~>', 'rimp': '<=', 'nand': '~&', 'nor': '~|'}


def V(n): return ('v', n)
def F(n, *a): return ('f', n, tuple(a))
def P(n, *a): return ('p', n, tuple(a))
def Not(f): return ('not', f)
def And(*fs): return ('and', tuple(fs))
def Or(*fs): return ('or', tuple(fs))
def Imp(a, b): return ('imp', a, b)
def Equ(a, b): return ('equ', a, b)
def All(vs, f): return ('all', tuple(vs), f)
def Ex(vs, f): return ('ex', tuple(vs), f)
def Eq(a, b): return ('=', a, b)


def term_str(t):
    if t[0] == 'v':
        return t[1]
    if not t[2]:
        return t[1]
    return t[1] + '(' + ','.join(term_str(a) for a in t[2]) + ')'


def form_str(f, style=None):
    """Fully parenthesised TPTP text. style: optional object with hooks (random spacing etc.)."""
    k = f[0]
    if k == 'top':
        return '$true'
    if k == 'bot':
        return '$false'
    if k == 'p':
        return term_str(('f', f[1], f[2]))
    if k == '=':
        return '(%s = %s)' % (term_str(f[1]), term_str(f[2]))
    if k == 'not':
        g = f[1]
        if g[0] == '=' and (style is None or not style.get('no_neq')):
            return '(%s != %s)' % (term_str(g[1]), term_str(g[2]))
        return '~ (%s)' % form_str(g, style)
    if k in ('and', 'or'):
        if len(f[1]) == 0:
            return '$true' if k == 'and' else '$false'
        if len(f[1]) == 1:
            return form_str(f[1][0], style)
        return '(' + (' & ' if k == 'and' else ' | ').join(form_str(g, style) for g in f[1]) + ')'
    if k in BIN:
        return '(%s %s %s)' % (form_str(f[1], style), BIN[k], form_str(f[2], style))
    if k in ('all', 'ex'):
        return '(%s [%s] : (%s))' % ('!' if k == 'all' else '?', ','.join(f[1]), form_str(f[2], style))
    raise ValueError(f)


def subforms(f):
    k = f[0]
    if k == 'not':
        return (f[1],)
    if k in ('and', 'or'):
        return f[1]
    if k in BIN:
        return (f[1], f[2])
    if k in ('all', 'ex'):
        return (f[2],)
    return ()


def size(f):
    k = f[0]
    if k == 'p':
        return 1 + sum(tsize(a) for a in f[2])
    if k == '=':
        return 1 + tsize(f[1]) + tsize(f[2])
    if k in ('all', 'ex'):
        return len(f[1]) + size(f[2])
    return 1 + sum(size(g) for g in subforms(f))


def tsize(t):
    return 1 if t[0] == 'v' else 1 + sum(tsize(a) for a in t[2])


def symbols(fs):
    """-> (funcs {name: arity}, preds {name: arity}, uses_eq)"""
    fn, pr, eq = {}, {}, [False]

    def tt(t):
        if t[0] == 'f':
            fn[t[1]] = len(t[2])
            for a in t[2]:
                tt(a)

    def go(f):
        if f[0] == 'p':
            pr[f[1]] = len(f[2])
            for a in f[2]:
                tt(a)
        elif f[0] == '=':
            eq[0] = True
            tt(f[1])
            tt(f[2])
        for g in subforms(f):
            go(g)
    for f in fs:
        go(f)
    return fn, pr, eq[0]


def nquant(f):
    return (len(f[1]) if f[0] in ('all', 'ex') else 0) + sum(nquant(g) for g in subforms(f))


def free_vars(f):
    def tv(t):
        if t[0] == 'v':
            return {t[1]}
        r = set()
        for a in t[2]:
            r |= tv(a)
        return r
    k = f[0]
    if k == 'p':
        r = set()
        for a in f[2]:
            r |= tv(a)
        return r
    if k == '=':
        return tv(f[1]) | tv(f[2])
    if k in ('all', 'ex'):
        return free_vars(f[2]) - set(f[1])
    r = set()
    for g in subforms(f):
        r |= free_vars(g)
    return r


# ---------------------------------------------------------------- finite models

class Model:
    """domain 0..n-1; funcs {name: {args: val}}, preds {name: set(args)} (missing -> default 0/false)"""

    def __init__(self, n, funcs, preds):
        self.n, self.funcs, self.preds = n, funcs, preds

    def t(self, t, env):
        if t[0] == 'v':
            return env[t[1]]
        a = tuple([self.t(x, env) for x in t[2]])
        return self.funcs[t[1]][a]

    def ev(self, f, env=None):
        env = env or {}
        k = f[0]
        if k == 'p':
            return tuple([self.t(x, env) for x in f[2]]) in self.preds[f[1]]
        if k == '=':
            return self.t(f[1], env) == self.t(f[2], env)
        if k == 'not':
            return not self.ev(f[1], env)
        if k == 'and':
            return all(self.ev(g, env) for g in f[1])
        if k == 'or':
            return any(self.ev(g, env) for g in f[1])
        if k == 'imp':
            return (not self.ev(f[1], env)) or self.ev(f[2], env)
        if k == 'rimp':
            return self.ev(f[1], env) or not self.ev(f[2], env)
        if k == 'equ':
            return self.ev(f[1], env) == self.ev(f[2], env)
        if k == 'xor':
            return self.ev(f[1], env) != self.ev(f[2], env)
        if k == 'nand':
            return not (self.ev(f[1], env) and self.ev(f[2], env))
        if k == 'nor':
            return not (self.ev(f[1], env) or self.ev(f[2], env))
        if k == 'all':
            return all(self.ev(f[2], {**env, **dict(zip(f[1], vs))})
                       for vs in itertools.product(range(self.n), repeat=len(f[1])))
        if k == 'ex':
            return any(self.ev(f[2], {**env, **dict(zip(f[1], vs))})
                       for vs in itertools.product(range(self.n), repeat=len(f[1])))
        if k == 'top':
            return True
        if k == 'bot':
            return False
        raise ValueError(f)

    def __str__(self):
        fs = '; '.join('%s:%s' % (k, {(','.join(map(str, a))): v for a, v in d.items()}) for k, d in sorted(self.funcs.items()))
        ps = '; '.join('%s:%s' % (k, sorted(map(list, d))) for k, d in sorted(self.preds.items()))
        return 'domain={0..%d} funcs{%s} preds{%s}' % (self.n - 1, fs, ps)


def random_model(rng, n, fn, pr):
    funcs = {k: {a: rng.randrange(n) for a in itertools.product(range(n), repeat=ar)} for k, ar in fn.items()}
    preds = {k: {a for a in itertools.product(range(n), repeat=ar) if rng.random() < 0.5} for k, ar in pr.items()}
    return Model(n, funcs, preds)


# ---------------------------------------------------------------- z3

class Z3:
    def __init__(self):
        import z3
        self.z = z3
        self.U = z3.DeclareSort('U')

    def tr(self, f, decls=None):
        z3, U = self.z, self.U
        decls = {} if decls is None else decls

        def fun(name, ar, pred):
            key = (name, ar, pred)
            if key not in decls:
                decls[key] = z3.Function(('P_' if pred else 'F_') + name, *([U] * ar + [z3.BoolSort() if pred else U])) if ar else (
                    z3.Bool('P_' + name) if pred else z3.Const('F_' + name, U))
            return decls[key]

        cnt = itertools.count()

        def tt(t, env):
            if t[0] == 'v':
                return env[t[1]]
            d = fun(t[1], len(t[2]), False)
            return d(*[tt(a, env) for a in t[2]]) if t[2] else d

        def go(f, env):
            k = f[0]
            if k == 'p':
                d = fun(f[1], len(f[2]), True)
                return d(*[tt(a, env) for a in f[2]]) if f[2] else d
            if k == '=':
                return tt(f[1], env) == tt(f[2], env)
            if k == 'not':
                return z3.Not(go(f[1], env))
            if k == 'and':
                return z3.And([go(g, env) for g in f[1]])
            if k == 'or':
                return z3.Or([go(g, env) for g in f[1]])
            if k == 'imp':
                return z3.Implies(go(f[1], env), go(f[2], env))
            if k == 'rimp':
                return z3.Implies(go(f[2], env), go(f[1], env))
            if k == 'equ':
                return go(f[1], env) == go(f[2], env)
            if k == 'xor':
                return z3.Xor(go(f[1], env), go(f[2], env))
            if k == 'nand':
                return z3.Not(z3.And(go(f[1], env), go(f[2], env)))
            if k == 'nor':
                return z3.Not(z3.Or(go(f[1], env), go(f[2], env)))
            if k in ('all', 'ex'):
                vs = [z3.Const('%s!%d' % (v, next(cnt)), U) for v in f[1]]
                b = go(f[2], {**env, **dict(zip(f[1], vs))})
                return z3.ForAll(vs, b) if k == 'all' else z3.Exists(vs, b)
            if k == 'top':
                return z3.BoolVal(True)
            if k == 'bot':
                return z3.BoolVal(False)
            raise ValueError(f)
        return go(f, {})

    def unsat(self, fs, ms=2000):
        """'unsat' | 'sat' | 'unknown' for the conjunction of closed formulas fs"""
        s = self.z.Solver()
        s.set('timeout', ms)
        d = {}
        for f in fs:
            s.add(self.tr(f, d))
        return str(s.check())


class Problem:
    """axioms: [(name, form)], conj: form or None"""

    def __init__(self, axioms, conj):
        self.axioms, self.conj = list(axioms), conj

    def text(self, style=None, kind='fof'):
        out = []
        for i, a in enumerate(self.axioms):
            out.append('%s(ax%d, axiom, %s).' % (kind, i, form_str(a, style)))
        if self.conj is not None:
            out.append('%s(goal, conjecture, %s).' % (kind, form_str(self.conj, style)))
        return '\n'.join(out) + '\n'

    def refutation_set(self):
        return self.axioms + ([Not(self.conj)] if self.conj is not None else [])

    def all_forms(self):
        return self.axioms + ([self.conj] if self.conj is not None else [])

    def size(self):
        return sum(size(f) for f in self.all_forms())


def subst_term(t, s):
    if t[0] == 'v':
        return s.get(t[1], t)
    return ('f', t[1], tuple(subst_term(a, s) for a in t[2]))


def finite_model(z3m, fs, n, ms=1000):
    """A Model of size n of the closed formulas fs (found by z3 on the quantifier-free expansion, then re-checked with
    the independent evaluator), or None when there is none or z3 gives up."""
    z3 = z3m.z
    U = z3m.U
    fn, pr, _ = symbols(fs)
    els = [z3.Const('d!%d' % i, U) for i in range(n)]
    fd = {k: (z3.Function('F_' + k, *([U] * (a + 1))) if a else z3.Const('F_' + k, U)) for k, a in fn.items()}
    pd = {k: (z3.Function('P_' + k, *([U] * a + [z3.BoolSort()])) if a else z3.Bool('P_' + k)) for k, a in pr.items()}
    s = z3.SolverFor('QF_UF')
    s.set('timeout', ms)
    if n > 1:
        s.add(z3.Distinct(*els))
    cnt = [0]

    def tt(t, env):
        if t[0] == 'v':
            return els[env[t[1]]]
        d = fd[t[1]]
        return d(*[tt(a, env) for a in t[2]]) if t[2] else d

    def go(f, env):
        cnt[0] += 1
        if cnt[0] > 20000:
            raise OverflowError
        k = f[0]
        if k == 'p':
            d = pd[f[1]]
            return d(*[tt(a, env) for a in f[2]]) if f[2] else d
        if k == '=':
            return tt(f[1], env) == tt(f[2], env)
        if k == 'not':
            return z3.Not(go(f[1], env))
        if k == 'and':
            return z3.And([go(g, env) for g in f[1]])
        if k == 'or':
            return z3.Or([go(g, env) for g in f[1]])
        if k in BIN:
            a, b = go(f[1], env), go(f[2], env)
            return {'imp': lambda: z3.Implies(a, b), 'rimp': lambda: z3.Implies(b, a), 'equ': lambda: a == b,
                    'xor': lambda: z3.Xor(a, b), 'nand': lambda: z3.Not(z3.And(a, b)), 'nor': lambda: z3.Not(z3.Or(a, b))}[k]()
        if k in ('all', 'ex'):
            xs = [go(f[2], {**env, **dict(zip(f[1], vs))}) for vs in itertools.product(range(n), repeat=len(f[1]))]
            return z3.And(xs) if k == 'all' else z3.Or(xs)
        if k == 'top':
            return z3.BoolVal(True)
        return z3.BoolVal(False)
    try:
        for f in fs:
            s.add(go(f, {}))
    except OverflowError:
        return None
    apps = {}
    for k, a in fn.items():
        for vs in itertools.product(range(n), repeat=a):
            e = fd[k](*[els[v] for v in vs]) if a else fd[k]
            apps[k, vs] = e
            s.add(z3.Or([e == d for d in els]))
    if len(apps) > 600 or str(s.check()) != 'sat':
        return None
    m = s.model()
    funcs = {k: {} for k in fn}
    for (k, vs), e in apps.items():
        for i, d in enumerate(els):
            if z3.is_true(m.eval(e == d, model_completion=True)):
                funcs[k][vs] = i
                break
        else:
            return None
    preds = {k: {vs for vs in itertools.product(range(n), repeat=a)
                 if z3.is_true(m.eval(pd[k](*[els[v] for v in vs]) if a else pd[k], model_completion=True))} for k, a in pr.items()}
    mod = Model(n, funcs, preds)
    if all(mod.ev(f) for f in fs):
        return mod
    return None
