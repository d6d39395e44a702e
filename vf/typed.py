"""Typed problems (TF0 and rank-1 TF1): syntax, printing, generation, a reference type checker, and many-sorted interpretations.

Types: ('ty', name, args) or ('tv', name). Terms: ('v', name) or ('f', name, tyargs, args). Formulas: ('p', name, tyargs, args), ('=', s, t),
('true',), ('false',), ('not', f), ('and', fs), ('or', fs), ('imp', f, g), ('equ', f, g), ('all' | 'ex', ((name, type), ...), f); a type variable is
a bound variable of type TTYPE."""
import hashlib, itertools

TTYPE = ('ty', '$tType', ())
O = ('ty', '$o', ())
I = ('ty', '$i', ())


def ty(n, *a): return ('ty', n, tuple(a))
def tv(n): return ('tv', n)


def ty_str(t):
    if t[0] == 'tv' or not t[2]:
        return t[1]
    return '%s(%s)' % (t[1], ', '.join(map(ty_str, t[2])))


class Sig:
    """sorts: name -> arity; syms: name -> (type variables, argument types, result type)."""
    def __init__(self):
        self.sorts, self.syms = {}, {}

    def text(self):
        out = []
        for s, n in self.sorts.items():
            if s[0] == '$':
                continue
            k = '$tType' if n == 0 else '$tType > $tType' if n == 1 else '(%s) > $tType' % ' * '.join(['$tType'] * n)
            out.append('tff(%s_t, type, %s: %s).' % (s, s, k))
        for f, (vs, args, res) in self.syms.items():
            if f[0] in '$0123456789-':
                continue
            m = ty_str(res) if not args else '%s > %s' % (ty_str(args[0]) if len(args) == 1 else '(%s)' % ' * '.join(map(ty_str, args)), ty_str(res))
            if vs:
                m = '!>[%s]: %s' % (', '.join(v + ': $tType' for v in vs), '(%s)' % m if args else m)
            out.append('tff(%s_d, type, %s: %s).' % (f, f, m))
        return '\n'.join(out) + '\n'


def term_str(t):
    if t[0] == 'v':
        return t[1]
    a = [ty_str(x) for x in t[2]] + [term_str(x) for x in t[3]]
    return t[1] + ('(%s)' % ', '.join(a) if a else '')


def form_str(f):
    k = f[0]
    if k == 'p':
        a = [ty_str(x) for x in f[2]] + [term_str(x) for x in f[3]]
        return f[1] + ('(%s)' % ', '.join(a) if a else '')
    if k == '=':
        return '(%s = %s)' % (term_str(f[1]), term_str(f[2]))
    if k in ('true', 'false'):
        return '$' + k
    if k == 'not':
        return '~ (%s)' % form_str(f[1])
    if k in ('and', 'or'):
        return '(%s)' % (' & ' if k == 'and' else ' | ').join(map(form_str, f[1]))
    if k in ('imp', 'equ'):
        return '(%s %s %s)' % (form_str(f[1]), '=>' if k == 'imp' else '<=>', form_str(f[2]))
    bs = ', '.join('%s: %s' % (n, ty_str(t)) if t != I else n for n, t in f[1])
    return '(%s [%s] : %s)' % ('!' if k == 'all' else '?', bs, '(%s)' % form_str(f[2]))


class Problem:
    def __init__(self, sig, axioms, conj=None):
        self.sig, self.axioms, self.conj = sig, list(axioms), conj

    def text(self):
        return self.sig.text() + self.forms_text()

    def forms_text(self):
        out = ['tff(ax%d, axiom, %s).' % (i, form_str(f)) for i, f in enumerate(self.axioms)]
        if self.conj is not None:
            out.append('tff(goal, conjecture, %s).' % form_str(self.conj))
        return '\n'.join(out) + '\n'

    def all_forms(self):
        return self.axioms + ([self.conj] if self.conj is not None else [])


def subst_ty(t, m):
    if t[0] == 'tv':
        return m.get(t[1], t)
    return ('ty', t[1], tuple(subst_ty(a, m) for a in t[2]))


def match_ty(p, t, m):
    if p[0] == 'tv':
        if p[1] in m:
            return m[p[1]] == t
        m[p[1]] = t
        return True
    return t[0] == 'ty' and p[1] == t[1] and len(p[2]) == len(t[2]) and all(match_ty(a, b, m) for a, b in zip(p[2], t[2]))


# Reference type checker --------------------------------------------------------------------

class Ill(Exception):
    pass


def check_ty(sig, t, tvs):
    if t[0] == 'tv':
        if t[1] not in tvs:
            raise Ill('unknown type variable %s' % t[1])
        return
    if t[1] not in sig.sorts:
        raise Ill('unknown type %s' % t[1])
    if sig.sorts[t[1]] != len(t[2]):
        raise Ill('%s has %d arguments' % (t[1], len(t[2])))
    for a in t[2]:
        check_ty(sig, a, tvs)


def apply_sym(sig, name, tys, args, tvs, env):
    if name not in sig.syms:
        raise Ill('unknown symbol %s' % name)
    vs, ats, res = sig.syms[name]
    if len(vs) != len(tys) or len(ats) != len(args):
        raise Ill('%s has %d+%d arguments' % (name, len(tys), len(args)))
    for t in tys:
        check_ty(sig, t, tvs)
    m = dict(zip(vs, tys))
    for a, x in zip(ats, args):
        got = check_term(sig, x, tvs, env)
        if got != subst_ty(a, m):
            raise Ill('%s has the type %s, not %s' % (term_str(x), ty_str(got), ty_str(subst_ty(a, m))))
    return subst_ty(res, m)


def check_term(sig, t, tvs, env):
    if t[0] == 'v':
        if t[1] not in env:
            raise Ill('unbound variable %s' % t[1])
        return env[t[1]]
    return apply_sym(sig, t[1], t[2], t[3], tvs, env)


def check_form(sig, f, tvs=frozenset(), env=None):
    env = env or {}
    k = f[0]
    if k == 'p':
        if apply_sym(sig, f[1], f[2], f[3], tvs, env) != O:
            raise Ill('%s is not a formula' % form_str(f))
    elif k == '=':
        a, b = check_term(sig, f[1], tvs, env), check_term(sig, f[2], tvs, env)
        if a != b:
            raise Ill('equality between %s and %s' % (ty_str(a), ty_str(b)))
    elif k == 'not':
        check_form(sig, f[1], tvs, env)
    elif k in ('and', 'or'):
        for g in f[1]:
            check_form(sig, g, tvs, env)
    elif k in ('imp', 'equ'):
        check_form(sig, f[1], tvs, env)
        check_form(sig, f[2], tvs, env)
    elif k in ('all', 'ex'):
        env, tvs = dict(env), set(tvs)
        for n, t in f[1]:
            if t == TTYPE:
                # what is of a type variable of the same name keeps the outer one
                hidden = n + "'"
                while hidden in tvs:
                    hidden += "'"
                if n in tvs:
                    env = {k: subst_ty(v, {n: tv(hidden)}) for k, v in env.items()}
                    tvs.add(hidden)
                tvs.add(n)
                env.pop(n, None)
            else:
                check_ty(sig, t, tvs)
                env[n] = t
                tvs.discard(n)
        check_form(sig, f[2], frozenset(tvs), env)


def ill_typed(pr):
    """None when the problem is well-typed, or why it is not."""
    try:
        for f in pr.all_forms():
            check_form(pr.sig, f)
    except Ill as e:
        return str(e)
    return None


# Generation ---------------------------------------------------------------------------------

def random_sig(rng, poly=None, small=False):
    s = Sig()
    s.sorts['$i'] = 0
    monos = rng.sample(['nat', 's', 't', 'col'], rng.randint(1, 3))
    for m in monos:
        s.sorts[m] = 0
    if poly is None:
        poly = rng.random() < .5
    if poly and rng.random() < .6:
        s.sorts['li'] = 1
        if rng.random() < .3:
            s.sorts['mp'] = 2
    base = [ty(m) for m in monos] + ([I] if rng.random() < .4 else [])

    def aty(vs, d=1):
        c = list(base) + [tv(v) for v in vs] * 2
        if d and 'li' in s.sorts and rng.random() < .3:
            return ty('li', aty(vs, d - 1))
        if d and 'mp' in s.sorts and rng.random() < .15:
            return ty('mp', aty(vs, 0), aty(vs, 0))
        return rng.choice(c)
    for i, b in enumerate(base):
        for c in ('abcdefgh'[2 * i:2 * i + rng.randint(1, 2)]):
            s.syms['c' + c] = ((), (), b)
    if poly:
        s.syms['e'] = (('A',), (), tv('A'))
        if rng.random() < .4:
            s.syms['e2'] = (('A',), (), tv('A'))
        if 'li' in s.sorts:
            s.syms['nil'] = (('A',), (), ty('li', tv('A')))
            if rng.random() < .6:
                s.syms['cons'] = (('A',), (tv('A'), ty('li', tv('A'))), ty('li', tv('A')))
            if rng.random() < .3:
                s.syms['hd'] = (('A',), (ty('li', tv('A')),), tv('A'))
    for f in ['f', 'g', 'h'][:rng.randint(0, 2 if small else 3)]:
        vs = ()
        if poly and rng.random() < .5:
            vs = ('A',) if rng.random() < .8 else ('A', 'B')
        s.syms[f] = (vs, tuple(aty(vs) for _ in range(rng.randint(1, 2))), aty(vs))
    for p in ['p', 'q', 'r', 'u'][:rng.randint(1, 3 if small else 4)]:
        vs = ()
        if poly and rng.random() < .6:
            vs = ('A',) if rng.random() < .7 else ('A', 'B')
        s.syms[p] = (vs, tuple(aty(vs) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))), O)
    s.base, s.poly = base, poly
    return s


class Gen:
    def __init__(self, rng, sig, delta_types=True, names=('X', 'Y', 'Z'), tynames=('A', 'B'), eq=True, tyq=True):
        self.rng, self.sig, self.names, self.tynames, self.eq = rng, sig, names, tynames, eq
        self.tyq = tyq and sig.poly

    def ty(self, tvs, d=1):
        rng = self.rng
        if tvs and rng.random() < .5:
            return tv(rng.choice(sorted(tvs)))
        if d and 'li' in self.sig.sorts and rng.random() < .25:
            return ty('li', self.ty(tvs, d - 1))
        return rng.choice(self.sig.base)

    def term(self, t, tvs, env, d):
        rng = self.rng
        vs = [n for n, u in env.items() if u == t]
        if vs and rng.random() < .6:
            return ('v', rng.choice(vs))
        opts = []
        for f, (qs, args, res) in self.sig.syms.items():
            m = {}
            if res != O and match_ty(res, t, m) and (d > 0 or not args):
                opts.append((f, qs, args, m))
        if not opts:
            if vs:
                return ('v', vs[0])
            # no constant of that type: a function with arguments, as flat as possible
            for f, (qs, args, res) in self.sig.syms.items():
                m = {}
                if res != O and match_ty(res, t, m):
                    opts.append((f, qs, args, m))
            if not opts or d < -2:
                return None
        consts = [o for o in opts if not o[2]]
        f, qs, args, m = rng.choice(consts if consts and rng.random() < .4 else opts)
        for q in qs:
            if q not in m:
                m[q] = self.ty(tvs)
        sub = []
        for a in args:
            x = self.term(subst_ty(a, m), tvs, env, d - 1)
            if x is None:
                return None
            sub.append(x)
        return ('f', f, tuple(m[q] for q in qs), tuple(sub))

    def atom(self, tvs, env, d=2):
        rng = self.rng
        for _ in range(20):
            if self.eq and rng.random() < .2:
                t = self.env_ty(tvs, env)
                a, b = self.term(t, tvs, env, d), self.term(t, tvs, env, d)
                if a and b:
                    return ('=', a, b)
                continue
            p = rng.choice([s for s, x in self.sig.syms.items() if x[2] == O])
            qs, args, _ = self.sig.syms[p]
            m = {q: self.env_ty(tvs, env) if rng.random() < .6 else self.ty(tvs) for q in qs}
            xs = [self.term(subst_ty(a, m), tvs, env, d) for a in args]
            if all(x is not None for x in xs):
                return ('p', p, tuple(m[q] for q in qs), tuple(xs))
        return ('true',)

    def env_ty(self, tvs, env):
        if env and self.rng.random() < .8:
            return self.rng.choice(list(env.values()))
        return self.ty(tvs)

    def form(self, n, tvs=(), env=None, pol=1, under=False, quant=True):
        """pol and under: no type quantifier in a position where it would be instantiated by a Skolem type below a metavariable."""
        rng, env = self.rng, dict(env or {})
        if n <= 1:
            return self.atom(tvs, env)
        k = rng.random()
        if k < .12:
            return ('not', self.form(n - 1, tvs, env, -pol, under, quant))
        if k < .45:
            a = rng.randint(1, n - 1)
            op = rng.choice(['and', 'or', 'and', 'or', 'imp', 'equ'])
            p1, p2 = (pol, pol) if op in ('and', 'or') else (-pol, pol) if op == 'imp' else (0, 0)
            f, g = self.form(a, tvs, env, p1, under, quant), self.form(n - a, tvs, env, p2, under, quant)
            return (op, (f, g)) if op in ('and', 'or') else (op, f, g)
        if not quant:
            return self.form(n - 1, tvs, env, pol, under, quant)
        return self.quantified(n, tvs, env, pol, under)

    def quantified(self, n, tvs, env, pol, under):
        rng, env, tvs = self.rng, dict(env), set(tvs)
        q = rng.choice(['all', 'all', 'ex'])
        bs = []
        # a universal type quantifier is a delta one in negative position (pol 0: both happen)
        tyok = self.tyq and q == 'all' and (pol == 1 or (pol == -1 and not under))
        if tyok and rng.random() < .5:
            for nm in rng.sample(list(self.tynames), rng.choice([1, 1, 2])):
                bs.append((nm, TTYPE))
                # a shadowed type variable: what was of that type is out of reach
                env = {k: v for k, v in env.items() if not mentions(v, nm)}
                tvs.add(nm)
        for nm in rng.sample(list(self.names), rng.choice([1, 1, 2])):
            t = self.ty(tvs)
            bs.append((nm, t))
            env[nm] = t
        gamma = (q == 'all') == (pol == 1) or pol == 0
        return (q, tuple(bs), self.form(n - 1, tvs, env, pol, under or gamma, True))


def mentions(t, v):
    return t[1] == v if t[0] == 'tv' else any(mentions(a, v) for a in t[2])


# Interpretations ----------------------------------------------------------------------------

class Model:
    """A many-sorted interpretation: a finite set of types, each with a size, and hashed tables for type constructors and symbols,
    overridden by explicit entries."""
    def __init__(self, seed, ntypes, sizes, identify=False):
        self.seed, self.n, self.sizes = seed, ntypes, sizes
        self.cache = {}
        self.over = {}
        self.identify = identify

    def h(self, *k):
        v = self.cache.get(k)
        if v is None:
            v = int.from_bytes(hashlib.blake2b(repr((self.seed, k)).encode(), digest_size=6).digest(), 'big')
            self.cache[k] = v
        return v

    def tden(self, t, te):
        if t[0] == 'tv':
            return te[t[1]]
        return self.h('ty', t[1], tuple(self.tden(a, te) for a in t[2])) % self.n

    def app(self, sig, name, tys, args, te, env):
        d = tuple(self.tden(t, te) for t in tys)
        a = tuple(self.term(sig, x, te, env) for x in args)
        vs, _, res = sig.syms[name]
        key = (name, d, a)
        if key in self.over:
            return self.over[key]
        n = 2 if res == O else self.sizes[self.tden(res, dict(zip(vs, d)))]
        return self.h('f', name, d, a) % n

    def term(self, sig, t, te, env):
        if t[0] == 'v':
            return env[t[1]]
        return self.app(sig, t[1], t[2], t[3], te, env)

    def holds(self, sig, f, te=None, env=None):
        te, env = te or {}, env or {}
        k = f[0]
        if k == 'p':
            return self.app(sig, f[1], f[2], f[3], te, env) == 1
        if k == '=':
            return self.term(sig, f[1], te, env) == self.term(sig, f[2], te, env)
        if k in ('true', 'false'):
            return k == 'true'
        if k == 'not':
            return not self.holds(sig, f[1], te, env)
        if k == 'and':
            return all(self.holds(sig, g, te, env) for g in f[1])
        if k == 'or':
            return any(self.holds(sig, g, te, env) for g in f[1])
        if k == 'imp':
            return not self.holds(sig, f[1], te, env) or self.holds(sig, f[2], te, env)
        if k == 'equ':
            return self.holds(sig, f[1], te, env) == self.holds(sig, f[2], te, env)

        def go(i, te, env):
            if i == len(f[1]):
                return self.holds(sig, f[2], te, env)
            n, t = f[1][i]
            want = k == 'ex'
            if t == TTYPE:
                for u in range(self.n):
                    if go(i + 1, dict(te, **{n: u}), {k: v for k, v in env.items() if k != n}) == want:
                        return want
            else:
                for x in range(self.sizes[self.tden(t, te)]):
                    if go(i + 1, te, dict(env, **{n: x})) == want:
                        return want
            return not want
        return go(0, te, env)

    def describe(self):
        return dict(seed=self.seed, ntypes=self.n, sizes=self.sizes, over=[[list(map(str, k)), v] for k, v in self.over.items()])


def refutes_model(m, pr):
    return all(m.holds(pr.sig, f) for f in pr.axioms) and (pr.conj is None or not m.holds(pr.sig, pr.conj))


def cost(pr, ntypes, size):
    def c(f):
        if f[0] in ('all', 'ex'):
            k = 1
            for _, t in f[1]:
                k *= ntypes if t == TTYPE else size
            return k * c(f[2])
        if f[0] in ('and', 'or'):
            return sum(map(c, f[1]))
        if f[0] in ('imp', 'equ'):
            return c(f[1]) + c(f[2])
        if f[0] == 'not':
            return c(f[1])
        return 1
    return sum(map(c, pr.all_forms()))


def countermodel(rng, pr, tries=60, limit=20000):
    """A model of the axioms and the negated conjecture: random ones, improved by flipping entries."""
    nsorts = len(pr.sig.sorts)
    spent = 0
    for i in range(tries):
        n = rng.choice([1, 2, 2, 3, nsorts, nsorts + 1])
        sizes = [rng.choice([1, 1, 2, 2, 3]) for _ in range(n)]
        c = cost(pr, n, max(sizes))
        spent += c
        if c > 4000:
            continue
        if spent > limit:
            return None
        m = Model(rng.randrange(1 << 30), n, sizes)
        goals = [(f, True) for f in pr.axioms] + ([(pr.conj, False)] if pr.conj is not None else [])
        bad = [g for g in goals if m.holds(pr.sig, g[0]) != g[1]]
        if not bad:
            return m
        # local search on the entries that the failing formulas look at
        best = len(bad)
        for _ in range(25):
            keys = touched(m, pr.sig, rng.choice(bad)[0])
            if not keys:
                break
            key, nv = rng.choice(keys)
            if nv < 2:
                continue
            old = m.over.get(key)
            cur = old if old is not None else m.h('f', *key) % nv
            m.over[key] = (cur + rng.randint(1, nv - 1)) % nv
            spent += c
            nb = [g for g in goals if m.holds(pr.sig, g[0]) != g[1]]
            if not nb:
                return m
            if len(nb) <= best:
                best, bad = len(nb), nb
            elif old is None:
                del m.over[key]
            else:
                m.over[key] = old
    return None


def touched(m, sig, f):
    """The entries that evaluating f reads, with the number of values they can take."""
    out = {}
    orig = m.app

    def app(sig, name, tys, args, te, env):
        d = tuple(m.tden(t, te) for t in tys)
        a = tuple(m.term(sig, x, te, env) for x in args)
        vs, _, res = sig.syms[name]
        out[(name, d, a)] = 2 if res == O else m.sizes[m.tden(res, dict(zip(vs, d)))]
        return orig(sig, name, tys, args, te, env)
    m.app = app
    try:
        m.holds(sig, f)
    finally:
        del m.app
    return list(out.items())
