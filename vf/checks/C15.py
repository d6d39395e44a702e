"""Well-typed problems are accepted and ill-typed ones rejected."""
from ..driver import *
from ..verdict import *
from ..typed import *
from ..known import run_repros, replay_repro

OPTS = [[], [], [], ['-preinner'], ['-inner'], ['-flatten'], ['-dmt'], ['-type_proof'], ['-noeq'], ['-pretty']]


def problem(rng):
    sig = random_sig(rng)
    g = Gen(rng, sig, names=('X', 'Y', 'Z', 'X1')[:rng.choice([2, 3, 4])])
    fs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([1, 2, 3, 4, 6, 9])
        fs.append(g.quantified(n, (), {}, 1, False) if rng.random() < .6 else g.form(n))
    conj = g.form(rng.choice([1, 2, 4]), pol=-1) if rng.random() < .4 else None
    return Problem(sig, fs, conj)


# Faults -----------------------------------------------------------------------------------------

def nodes(f, path=()):
    """The paths to the subterms and subformulas of f."""
    yield path, f
    k = f[0]
    if k in ('p', 'f'):
        for i, x in enumerate(f[3]):
            yield from nodes(x, path + (3, i))
    elif k in ('=', 'imp', 'equ'):
        yield from nodes(f[1], path + (1,))
        yield from nodes(f[2], path + (2,))
    elif k == 'not':
        yield from nodes(f[1], path + (1,))
    elif k in ('and', 'or'):
        for i, x in enumerate(f[1]):
            yield from nodes(x, path + (1, i))
    elif k in ('all', 'ex'):
        yield from nodes(f[2], path + (2,))


def put(f, path, new):
    if not path:
        return new
    return f[:path[0]] + (put(f[path[0]], path[1:], new),) + f[path[0] + 1:]


def some_ty(rng, sig, deep=1):
    r = rng.random()
    if r < .1:
        return tv(rng.choice(['A', 'B', 'C']))
    if r < .15:
        return ty(rng.choice(['unknown', '$o', '$int']))
    if r < .22:
        return ty(rng.choice([f for f in sig.syms]))
    s = rng.choice(sorted(sig.sorts))
    n = sig.sorts[s]
    if rng.random() < .12:
        n = rng.choice([0, 1, 2])
    return ty(s, *[some_ty(rng, sig, 0) for _ in range(n)]) if deep or not n else ty('$i')


def fault(rng, pr):
    """pr with one node of one formula broken; the name of the fault."""
    sig = pr.sig
    fs = pr.all_forms()
    k = rng.randrange(len(fs))
    all_nodes = list(nodes(fs[k]))
    for _ in range(60):
        path, n = rng.choice(all_nodes)
        new, what = None, None
        r = rng.random()
        if n[0] in ('p', 'f'):
            name, tys, args = n[1:]
            if r < .12 and args:
                i = rng.randrange(len(args))
                new, what = (n[0], name, tys, args[:i] + args[i + 1:]), 'argument dropped'
            elif r < .24 and args:
                i = rng.randrange(len(args))
                new, what = (n[0], name, tys, args[:i] + (args[i],) + args[i:]), 'argument doubled'
            elif r < .36 and len(args) > 1:
                i, j = rng.sample(range(len(args)), 2)
                a = list(args)
                a[i], a[j] = a[j], a[i]
                new, what = (n[0], name, tys, tuple(a)), 'arguments exchanged'
            elif r < .48 and tys:
                i = rng.randrange(len(tys))
                new, what = (n[0], name, tys[:i] + tys[i + 1:], args), 'type argument dropped'
            elif r < .56:
                new, what = (n[0], name, tys + (some_ty(rng, sig),), args), 'type argument added'
            elif r < .72 and tys:
                i = rng.randrange(len(tys))
                new, what = (n[0], name, tys[:i] + (some_ty(rng, sig),) + tys[i + 1:], args), 'type argument replaced'
            elif r < .84:
                other = rng.choice(sorted(sig.syms))
                new, what = (n[0], other, tys, args), 'symbol replaced'
            elif r < .88:
                new, what = (n[0], 'unk', tys, args), 'symbol unknown'
            elif args:
                i = rng.randrange(len(args))
                terms = [m for f in fs for _, m in nodes(f) if m[0] in ('f', 'v')]
                new, what = (n[0], name, tys, args[:i] + (rng.choice(terms),) + args[i + 1:]), 'argument replaced'
        elif n[0] == '=':
            terms = [m for f in fs for _, m in nodes(f) if m[0] in ('f', 'v')]
            i = rng.choice([1, 2])
            new, what = n[:i] + (rng.choice(terms),) + n[i + 1:], 'side of an equality replaced'
        elif n[0] == 'v':
            new, what = ('v', rng.choice(['X', 'Y', 'Z', 'X1', 'A', 'W'])), 'variable replaced'
        elif n[0] in ('all', 'ex'):
            i = rng.randrange(len(n[1]))
            if r < .35:
                new, what = (n[0], n[1][:i] + n[1][i + 1:], n[2]) if len(n[1]) > 1 else n[2], 'quantifier dropped'
            elif r < .85 and n[1][i][1] != TTYPE:
                new, what = (n[0], n[1][:i] + ((n[1][i][0], some_ty(rng, sig)),) + n[1][i + 1:], n[2]), 'type of a variable replaced'
            elif n[1][i][1] == TTYPE:
                new, what = (n[0], n[1][:i] + ((n[1][i][0], some_ty(rng, sig)),) + n[1][i + 1:], n[2]), 'type variable turned into a term variable'
        elif n[0] in ('true', 'false'):
            t = [m for f in fs for _, m in nodes(f) if m[0] == 'f']
            if t:
                new, what = ('p',) + rng.choice(t)[1:], 'term as a formula'
        if new is None or new == n:
            continue
        f = put(fs[k], path, new)
        gs = fs[:k] + [f] + fs[k + 1:]
        return Problem(sig, gs[:len(pr.axioms)], gs[len(pr.axioms)] if pr.conj is not None else None), what
    return None, None


def shadows(f, tvs=frozenset()):
    """A type variable bound again within its scope (see the finding shadowed-type-variable)."""
    if f[0] in ('all', 'ex'):
        new = {n for n, t in f[1] if t == TTYPE}
        return bool(new & tvs) or shadows(f[2], tvs | new)
    return any(shadows(g, tvs) for g in (f[1] if f[0] in ('and', 'or') else f[1:] if f[0] in ('not', 'imp', 'equ') else ()))


def outside(pr):
    """What the check says nothing about: equalities between formulas, existentially quantified types, variables bound twice by one quantifier, type
    variables bound again within their scope, the interpreted numbers."""
    sig = pr.sig
    def bad(f):
        for _, n in nodes(f):
            if n[0] == '=' and any(s[0] == 'f' and (s[1] == 'unk' or sig.syms.get(s[1], (0, 0, O))[2] == O) for s in n[1:3]):
                return True
            if n[0] == 'ex' and any(t == TTYPE for _, t in n[1]):
                return True
            if n[0] in ('all', 'ex') and len({x for x, _ in n[1]}) < len(n[1]):
                return True
            tys = [t for _, t in n[1]] if n[0] in ('all', 'ex') else n[2] if n[0] in ('p', 'f') else ()
            if any('$o' in ty_str(t) or '$int' in ty_str(t) for t in tys):
                return True
        return False
    return any(bad(f) or shadows(f) for f in pr.all_forms())


def judge(goe, pr, opts, timeout=4):
    """None, or what is wrong; the reference type checker decides what is right."""
    why = ill_typed(pr)
    r = goe(pr.text(), opts, timeout=timeout)
    if why is None:
        # an error after the message that the problem is well typed is one of the search (C26)
        if r.rc not in (0, None) and not r.timeout and 'Problem is well typed' not in r.out:
            m = re.search(r'^.*(rror|panic|nomaly).*$', r.out + r.err, re.M)
            return why, 'a well-typed problem is rejected: %s' % (m.group(0) if m else r.rc)
        return why, None
    if r.res or r.szs:
        return why, 'an ill-typed problem (%s) gets the verdict %s %s' % (why, r.res, r.szs)
    if r.timeout:
        return why, 'an ill-typed problem (%s) is not rejected' % why
    if r.rc == 0:
        return why, 'an ill-typed problem (%s) ends with exit code 0' % why
    if 'panic: ' in r.err and 'nomaly' not in r.out:
        return why, 'an ill-typed problem (%s) makes the prover panic' % why
    return why, None


def simpler(pr):
    """Problems with one formula less, or a formula replaced by a part."""
    fs = pr.all_forms()
    for i in range(len(pr.axioms)):
        if len(fs) > 1:
            yield Problem(pr.sig, pr.axioms[:i] + pr.axioms[i + 1:], pr.conj)
    if pr.conj is not None and pr.axioms:
        yield Problem(pr.sig, pr.axioms, None)
    for k, f in enumerate(fs):
        for path, n in nodes(f):
            subs = []
            if n[0] == 'not' or n[0] in ('imp', 'equ'):
                subs = list(n[1:])
            elif n[0] in ('and', 'or'):
                subs = list(n[1])
            elif n[0] in ('all', 'ex'):
                subs = [(n[0], n[1][:i] + n[1][i + 1:], n[2]) for i in range(len(n[1]))] if len(n[1]) > 1 else [n[2]]
            if n[0] in ('p', '=', 'not', 'and', 'or', 'imp', 'equ', 'all', 'ex'):
                subs.append(('true',))
            for s in subs:
                gs = fs[:k] + [put(f, path, s)] + fs[k + 1:]
                yield Problem(pr.sig, gs[:len(pr.axioms)], gs[len(pr.axioms)] if pr.conj is not None else None)


def minimise(pr, isbad, deadline, outside=None):
    outside = outside or globals()['outside']
    moved = True
    while moved and time.time() < deadline:
        moved = False
        for c in simpler(pr):
            if time.time() > deadline:
                break
            if not outside(c) and isbad(c):
                pr, moved = c, True
                break
    for s in list(pr.sig.syms):
        g = Sig()
        g.sorts, g.syms = dict(pr.sig.sorts), {k: v for k, v in pr.sig.syms.items() if k != s}
        c = Problem(g, pr.axioms, pr.conj)
        if time.time() < deadline + 5 and not outside(c) and isbad(c):
            pr = c
    return pr


def run(ctx):
    ctx.rule = ('generated TFF problems over random signatures (base types, type constructors, monomorphic and polymorphic symbols, nested and shadowed bindings), and the same with one fault at a random node; '
                'a reference type checker says which of them are well-typed; a well-typed one must be accepted, an ill-typed one must end in an error without a verdict; '
                'non-trivial = at least one quantifier or argument; distinct by the text')
    binary = build_goeland()
    run_repros(ctx, binary)
    goe = Runner(binary, ctx.tmp)

    def case(i):
        rng = ctx.rng('c15', i)
        pr = problem(rng)
        what = 'no fault'
        if rng.random() < .7:
            for _ in range(rng.choice([1, 1, 1, 2])):
                q, w = fault(rng, pr)
                if q:
                    pr, what = q, w
        if outside(pr):
            return dict(cls='outside')
        opts = ['-l', '1', '-one_step'] + rng.choice(OPTS)
        if '-dmt' in opts and pr.conj is None:      # see the finding dmt-empty of C26
            opts.remove('-dmt')
        why, bad = judge(goe, pr, opts)
        out = dict(cls='%s: %s' % ('well-typed' if why is None else 'ill-typed', what), key=pr.text(), sample=pr.text()[:600],
                   nontriv=any(n[0] in ('all', 'ex') or n[0] in ('p', 'f') and n[3] for f in pr.all_forms() for _, n in nodes(f)))
        if bad:
            out['bad'] = ('%s\n%s' % (bad, pr.text()), dict(text=pr.text(), ok=why is None, why=why, opts=opts))
            out['pr'], out['opts'] = pr, opts
        return out

    def shrinker(o):
        kind = o['bad'][0].split()[:3]
        pr = minimise(o['pr'], lambda p: (judge(goe, p, o['opts'])[1] or '').split()[:3] == kind, time.time() + 30)
        why, bad = judge(goe, pr, o['opts'])
        return ('%s\n%s' % (bad, pr.text()), dict(text=pr.text(), ok=why is None, why=why, opts=o['opts'])) if bad else None
    drive(ctx, case, (9000, 200000), (30, 900), shrinker, maxbad=4, stop=8)


def replay(ctx, rep):
    if 'repro' in rep:
        return replay_repro(ctx, build_goeland(), rep)
    goe = Runner(build_goeland(), ctx.tmp)
    for _ in range(10):
        r = goe(rep['text'], rep['opts'], timeout=6)
        if rep['ok'] and r.rc not in (0, None) and not r.timeout and 'Problem is well typed' not in r.out:
            return 'a well-typed problem is rejected:\n%s\n%s' % (r.out[-400:], rep['text'])
        if not rep['ok'] and (r.res or r.szs or r.timeout or r.rc == 0):
            return 'an ill-typed problem (%s) is not rejected:\n%s' % (rep['why'], rep['text'])
    return None
