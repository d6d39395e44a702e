"""The verdict does not depend on the presentation of the problem."""
from ..driver import *
from ..verdict import *

# names that look like what the prover makes up itself, next to plain ones
PRED_NAMES = ['p0', 'q_1', 'goal', 'ax1', 'skolem', 'eq', 'equal', 'pred', 'true', 'e', 'h1', 'type', 'not', 'axiom', 'h_0', 'p_p', 'q12', 'emptyPred', 'initial']
FUN_NAMES = ['f0', 'k', 'sko', 'skolem_0', 'skolem', 'x1', 'y2', 'x', 'meta', 'mETA_3', 'c_1', 'f_f', 'var', 'x0', 'goeland_I', 'v1', 'a1b', 'fun', 'int', 'o', 'i']
QUOTED = ["'X'", "'Y1'", "'X1'", "'='", "'!='", "'a b'", "'('", "'f(a)'", "'$true'", "'skolem@X1@0'", "'[X]'", "'p,q'", "'~'", "'X0'", "'Z'"]
# a quoted function named like a bound variable is rejected: finding quoted-variable-name of C12
QUOTEDF = [q for q in QUOTED if q not in ("'X'", "'Y1'", "'X1'", "'X0'", "'Z'")] + ["'Foo'", "'Bar9'", "'5'", "'-1'", "'$i'", "'$o'", "'$sum'"]
VAR_NAMES = ['X', 'Y', 'Z', 'X1', 'Y10', 'X10', 'META', 'X_1', 'Skolem', 'A', 'V0', 'X0', 'Xx', 'Z9', 'W_W', 'I', 'O']


def rename_syms(f, fm, pm):
    def tm(t):
        return t if t[0] == 'v' else ('f', fm.get(t[1], t[1]), tuple(tm(a) for a in t[2]))
    k = f[0]
    if k == 'p':
        return ('p', pm.get(f[1], f[1]), tuple(tm(a) for a in f[2]))
    if k == '=':
        return ('=', tm(f[1]), tm(f[2]))
    if k == 'not':
        return ('not', rename_syms(f[1], fm, pm))
    if k in ('and', 'or'):
        return (k, tuple(rename_syms(g, fm, pm) for g in f[1]))
    if k in BIN:
        return (k, rename_syms(f[1], fm, pm), rename_syms(f[2], fm, pm))
    if k in ('all', 'ex'):
        return (k, f[1], rename_syms(f[2], fm, pm))
    return f


def rename_bound(rng, f, env, names):
    """Gives fresh names to all bound variables (the names may shadow those of other binders that do not matter)."""
    def tm(t):
        return ('v', env.get(t[1], t[1])) if t[0] == 'v' else ('f', t[1], tuple(tm(a) for a in t[2]))
    k = f[0]
    if k == 'p':
        return ('p', f[1], tuple(tm(a) for a in f[2]))
    if k == '=':
        return ('=', tm(f[1]), tm(f[2]))
    if k == 'not':
        return ('not', rename_bound(rng, f[1], env, names))
    if k in ('and', 'or'):
        return (k, tuple(rename_bound(rng, g, env, names) for g in f[1]))
    if k in BIN:
        return (k, rename_bound(rng, f[1], env, names), rename_bound(rng, f[2], env, names))
    if k in ('all', 'ex'):
        fv = free_vars(f)
        used = {env.get(v, v) for v in fv}
        pool = [n for n in names if n not in used]
        new = rng.sample(pool, len(f[1])) if len(set(f[1])) == len(f[1]) and len(pool) >= len(f[1]) else None
        if new is None:
            return f if not env else (k, f[1], rename_bound(rng, f[2], {a: b for a, b in env.items() if a not in f[1]}, names))
        e2 = dict(env)
        e2.update(zip(f[1], new))
        return (k, tuple(new), rename_bound(rng, f[2], e2, names))
    return f


def transform(rng, pr):
    """An equivalent presentation and its text, with the names of the changes made."""
    axs, conj, what, text = list(pr.axioms), pr.conj, [], None
    fs = axs + ([conj] if conj is not None else [])
    fn, ps, _ = symbols(fs)
    fn = {a: b for a, b in fn.items()}
    todo = rng.sample(['bound', 'syms', 'order', 'dup', 'taut', 'swap', 'wrap', 'split', 'conj', 'names', 'rebracket', 'quote'], rng.randint(1, 4))
    for t in todo:
        if t == 'bound':
            names = rng.sample(VAR_NAMES, len(VAR_NAMES)) if rng.random() < .7 else ['X%d' % i for i in range(20)]
            axs = [rename_bound(rng, f, {}, names) for f in axs]
            conj = None if conj is None else rename_bound(rng, conj, {}, names)
        elif t in ('syms', 'quote'):
            fpool, ppool = (FUN_NAMES, PRED_NAMES) if t == 'syms' else (QUOTEDF, QUOTED)
            if rng.random() < .3:     # a permutation of the names in use, arities permitting
                fpool = list(fn)
            fp, pp = list(fpool), list(ppool)
            rng.shuffle(fp)
            rng.shuffle(pp)
            if set(fpool) == set(fn):
                fm = {}
                for ar in set(fn.values()):
                    g = [n for n in fn if fn[n] == ar]
                    h = g[:]
                    rng.shuffle(h)
                    fm.update(zip(g, h))
            else:
                fm = dict(zip(sorted(fn), fp))
            pm = dict(zip(sorted(ps), [n for n in pp if n not in fm.values()]))
            if len(pm) < len(ps) or len(fm) < len(fn):
                continue
            axs = [rename_syms(f, fm, pm) for f in axs]
            conj = None if conj is None else rename_syms(conj, fm, pm)
            fn = {fm.get(a, a): b for a, b in fn.items()}
            ps = {pm.get(a, a): b for a, b in ps.items()}
        elif t == 'order' and len(axs) > 1:
            rng.shuffle(axs)
        elif t == 'dup' and axs:
            axs.insert(rng.randrange(len(axs) + 1), rng.choice(axs))
        elif t == 'taut':
            f = rng.choice([('top',), Imp(P('zz'), P('zz')), Or(P('zz'), Not(P('zz'))), Not(('bot',))])
            axs.insert(rng.randrange(len(axs) + 1), f)
        elif t == 'swap':
            axs = [swap(rng, f) for f in axs]
            conj = None if conj is None else swap(rng, conj)
        elif t == 'wrap' and len(axs) > 1:
            axs = [And(*axs)]
        elif t == 'split':
            out = []
            for f in axs:
                out += list(f[1]) if f[0] == 'and' and f[1] else [f]
            axs = out
        elif t == 'conj' and conj is not None:
            axs, conj = axs + [Not(conj)], None
        elif t == 'rebracket':
            axs = [assoc(rng, f) for f in axs]
            conj = None if conj is None else assoc(rng, conj)
        elif t == 'names':
            pass
        else:
            continue
        what.append(t)
    p2 = Problem(axs, conj)
    text = p2.text()
    if 'names' in what:
        n = [0]

        def nm(m):
            n[0] += 1
            return 'fof(' + rng.choice(['ax', "'ax %d'" % n[0], 'skolem%d' % n[0], '%d' % n[0], 'goal_%d' % n[0], 'x'])
        text = re.sub(r'^fof\(\w+', nm, text, flags=re.M)
    return p2, text, what


def swap(rng, f):
    k = f[0]
    if k == '=' and rng.random() < .5:
        return ('=', f[2], f[1])
    if k == 'not':
        return ('not', swap(rng, f[1]))
    if k in ('and', 'or'):
        l = [swap(rng, g) for g in f[1]]
        if rng.random() < .5:
            rng.shuffle(l)
        return (k, tuple(l))
    if k in BIN:
        a, b = swap(rng, f[1]), swap(rng, f[2])
        if rng.random() < .5:
            if k in ('equ', 'xor', 'nand', 'nor'):
                return (k, b, a)
            return ({'imp': 'rimp', 'rimp': 'imp'}[k], b, a)
        return (k, a, b)
    if k in ('all', 'ex'):
        vs = list(f[1])
        if len(set(vs)) == len(vs) and rng.random() < .5:
            rng.shuffle(vs)
        return (k, tuple(vs), swap(rng, f[2]))
    return f


def assoc(rng, f):
    k = f[0]
    if k == 'not':
        return ('not', assoc(rng, f[1]))
    if k in ('and', 'or'):
        l = [assoc(rng, g) for g in f[1]]
        while len(l) > 2 and rng.random() < .6:
            i = rng.randrange(len(l) - 1)
            l[i:i + 2] = [(k, (l[i], l[i + 1]))]
        flat = []
        for g in l:
            if g[0] == k and rng.random() < .4:
                flat += list(g[1])
            else:
                flat.append(g)
        return (k, tuple(flat)) if len(flat) > 1 else (flat[0] if flat else f)
    if k in BIN:
        return (k, assoc(rng, f[1]), assoc(rng, f[2]))
    if k in ('all', 'ex'):
        vs, b = f[1], assoc(rng, f[2])
        if len(vs) > 1 and rng.random() < .5:      # split the block
            return (k, vs[:1], (k, vs[1:], b))
        if b[0] == k and not set(b[1]) & set(vs) and rng.random() < .5:
            return (k, vs + b[1], b[2])
        return (k, vs, b)
    return f


def verdict(r):
    return 'yes' if claims(r) else 'no' if refutes(r) else 'error' if not r.timeout and r.rc != 0 else None


def run(ctx):
    ctx.rule = ('generated untyped problem and one presentation of it obtained by 1-4 changes (bound variables, symbols incl. quoted and internal-looking names, '
                'order, duplicates, tautologies, sides of commutative connectives and equations, association, blocks of quantifiers, conjecture as negated axiom, statement names), '
                'both run under one option set without limit (2 s); a pair fails when one is proved and the other refuted, or one is rejected; '
                'non-trivial = both gave a verdict; distinct by both texts and options')
    goe = Runner(build_goeland(), ctx.tmp)

    def pair(t1, t2, opts, timeout=2):
        a = verdict(goe(t1, opts, timeout=timeout))
        b = verdict(goe(t2, opts, timeout=timeout))
        return a, b

    def case(i):
        rng = ctx.rng('c06', i)
        eq = rng.random() < .35
        fam, pr = pick(rng, eq)
        if rng.random() < .25:
            fam, pr = 'prop', gen_problem(rng, prop=True)[0]
        opts = list(rng.choice([[], [], ['-inner'], ['-preinner'], ['-flatten'], ['-sateq'] if eq else [], ['-completeness'] if not eq else []]))
        p2, text, what = transform(rng, pr)
        if len(p2.text()) > 3000:
            return dict(cls='too long')
        r1 = goe(pr.text(), opts, timeout=.3)
        a = verdict(r1)
        if a is None:
            return dict(cls='no verdict')
        r2 = goe(text, opts, timeout=1.5)
        b = verdict(r2)
        out = dict(cls='+'.join(what[:1]) or 'none', key=(pr.text(), text, opts), inc=b is None, nontriv=text != pr.text(),
                   sample={'options': opts, 'problem': pr.text(), 'presentation': text, 'changes': what, 'verdicts': [a, b]})
        if b is not None and a != b and 'error' in (a, b) and re.search(r'\[Anomaly\]', r1.out + r2.out):
            out['inc'] = True        # crashes are the business of C26
        elif b is not None and a != b:
            out['bad'] = ('%s / %s under %s after %s on\n%s\nand\n%s' % (a, b, opts, what, pr.text(), text), dict(first=pr.text(), second=text, options=opts))
        return out
    drive(ctx, case, (8000, 200000), (40, 1000))


def replay(ctx, rep):
    goe = Runner(build_goeland(), ctx.tmp)
    for _ in range(5):
        a = verdict(goe(rep['first'], rep['options'], timeout=20))
        b = verdict(goe(rep['second'], rep['options'], timeout=20))
        if a and b and a != b:
            return '%s / %s' % (a, b)
    return None
