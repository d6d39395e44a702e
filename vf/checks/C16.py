"""A positive verdict on a typed problem is always right."""
from ..driver import *
from ..verdict import *
from ..typed import *
from ..known import run_repros, replay_repro
from .C15 import nodes, put, fault, shadows, minimise

MODES = [[], [], [], ['-inner'], ['-preinner'], ['-flatten'], ['-completeness'], ['-dmt'], ['-type_proof'], ['-dmt', '-preinner'], ['-completeness', '-inner']]
EQMODES = [[], [], ['-inner'], ['-preinner'], ['-flatten'], ['-sateq'], ['-eagereq'], ['-completeness'], ['-sateq', '-preinner'], ['-noeq']]


def depends(f, pol, under=False, tdep=True):
    """A type quantifier in delta position below a gamma quantifier (finding type-skolem-dependence)."""
    k = f[0]
    if k == 'not':
        return depends(f[1], -pol, under)
    if k in ('and', 'or'):
        return any(depends(g, pol, under) for g in f[1])
    if k == 'imp':
        return depends(f[1], -pol, under) or depends(f[2], pol, under)
    if k == 'equ':
        return any(depends(g, p, under) for g in f[1:] for p in (1, -1))
    if k in ('all', 'ex'):
        gamma = (k == 'all') == (pol == 1)
        # the binders of one quantifier are instantiated one after the other
        if not gamma and under and any(t == TTYPE for _, t in f[1]):
            return True
        return depends(f[2], pol, under or gamma)
    return False


def bare(pr):
    """An equality with a variable for a side (finding typed-equality-variable)."""
    return any(n[0] == '=' and 'v' in (n[1][0], n[2][0]) for f in pr.all_forms() for _, n in nodes(f))


def outside(pr):
    sig = pr.sig
    if ill_typed(pr):
        return True
    for f in pr.all_forms():
        for _, n in nodes(f):
            if n[0] == '=' and any(s[0] == 'f' and sig.syms[s[1]][2] == O for s in n[1:3]):
                return True
            if n[0] == 'ex' and any(t == TTYPE for _, t in n[1]):
                return True
            if n[0] in ('all', 'ex') and len({x for x, _ in n[1]}) < len(n[1]):
                return True
        if shadows(f):
            return True
    if any(depends(f, 1) for f in pr.axioms) or (pr.conj is not None and depends(pr.conj, -1)):
        return True
    return bare(pr)


def near_instance(rng, sig, eq):
    """An axiom and a variation of it as the goal."""
    g = Gen(rng, sig, eq=eq)
    f = g.quantified(rng.choice([1, 2, 3, 4]), (), {}, 1, False) if rng.random() < .7 else g.form(rng.choice([1, 2, 3]))
    pr = Problem(sig, [f], f)
    for _ in range(12):
        q, w = fault(rng, Problem(sig, [], pr.conj))
        if q and not ill_typed(q) and (w in ('type argument replaced', 'symbol replaced', 'argument replaced', 'arguments exchanged', 'type of a variable replaced') or rng.random() < .3):
            pr = Problem(sig, [f], q.conj)
            if rng.random() < .7:
                break
    if rng.random() < .4:
        # the same quantifier the other way round, or a lemma in between
        n = pr.conj
        if n[0] == 'all' and not any(t == TTYPE for _, t in n[1]):
            pr.conj = ('ex', n[1], n[2])
    if rng.random() < .3:
        pr.axioms.append(g.form(rng.choice([1, 2, 3])))
    return pr


def poly_rules(rng, sig, eq):
    """Facts and rules over polymorphic predicates, instances of which are asked for at other types."""
    g = Gen(rng, sig, eq=eq)
    preds = [s for s, x in sig.syms.items() if x[2] == O]

    def atom(tvs, env):
        return g.atom(tvs, env, 1)
    axs = []
    for _ in range(rng.randint(2, 4)):
        bs, tvs, env = [], set(), {}
        if sig.poly and rng.random() < .7:
            bs.append(('A', TTYPE))
            tvs.add('A')
        for nm in rng.sample(['X', 'Y', 'Z'], rng.choice([0, 1, 1, 2])):
            t = g.ty(tvs)
            bs.append((nm, t))
            env[nm] = t
        head = atom(tvs, env)
        body = [atom(tvs, env) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        f = ('imp', body[0] if len(body) == 1 else ('and', tuple(body)), head) if body else head
        axs.append(('all', tuple(bs), f) if bs else f)
    bs, env = [], {}
    for nm in rng.sample(['X', 'Y'], rng.choice([0, 1, 1, 2])):
        env[nm] = g.ty(())
        bs.append((nm, env[nm]))
    goal = atom((), env)
    if rng.random() < .4:
        goal = (rng.choice(['and', 'or']), (goal, atom((), env)))
    return Problem(sig, axs, ('ex', tuple(bs), goal) if bs else goal)


def random_problem(rng, sig, eq):
    g = Gen(rng, sig, eq=eq)
    fs = [g.form(rng.randint(2, 6), pol=1) for _ in range(rng.randint(0, 3))]
    return Problem(sig, fs, g.form(rng.randint(2, 7), pol=-1) if rng.random() < .8 or not fs else None)


FAMS = [('near instance', near_instance), ('near instance', near_instance), ('rules', poly_rules), ('rules', poly_rules), ('random', random_problem)]


def run(ctx):
    ctx.rule = ('generated TFF problems, monomorphic and polymorphic, with and without equality (a formula and a variation of it at other types, rules over polymorphic predicates, random formulas), '
                'run with two option sets under a limit; a case counts as non-trivial when a many-sorted finite interpretation found by search falsifies the problem (re-evaluated before it is believed), '
                'and fails when the prover claims a proof of such a problem; distinct by text and options')
    binary = build_goeland()
    run_repros(ctx, binary)
    goe = Runner(binary, ctx.tmp)

    def case(i):
        rng = ctx.rng('c16', i)
        eq = rng.random() < .35
        fam, mk = rng.choice(FAMS)
        pr = mk(rng, random_sig(rng, poly=rng.random() < .75, small=True), eq)
        if outside(pr):
            return dict(cls='outside')
        m = countermodel(rng, pr)
        if m is None:
            return dict(cls='no countermodel found: ' + fam)
        out = []
        for o in rng.sample(EQMODES if eq else MODES, 2):
            o = o + ['-one_step', '-l', str(rng.choice([2, 3, 4]))]
            r = goe(pr.text(), o, timeout=1.5)
            d = dict(cls='%s%s' % (fam, ' =' if eq else ''), key=(pr.text(), o), sample=dict(problem=pr.text(), options=o, countermodel=m.describe(), verdict=r.szs), inc=r.timeout)
            if claims(r) and refutes_model(m, pr):
                d['bad'] = ('%s although there is a countermodel %s\n%s' % (r.szs, m.describe(), pr.text()), dict(problem=pr.text(), options=o, countermodel=m.describe()))
                d['pr'], d['o'] = pr, o
            out.append(d)
        return out

    def shrinker(x):
        rng = ctx.rng('c16s', 0)

        def isbad(p):
            if outside(p):
                return False
            m = countermodel(rng, p, tries=200)
            return m is not None and claims(goe(p.text(), x['o'], timeout=2))
        p = minimise(x['pr'], isbad, time.time() + 40, outside)
        m = countermodel(rng, p, tries=3000, limit=400000)
        if m is None:
            return None
        return '%s: claimed a proof although there is a countermodel %s\n%s' % (x['o'], m.describe(), p.text()), dict(problem=p.text(), options=x['o'], countermodel=m.describe())
    drive(ctx, case, (4500, 200000), (45, 1200), shrinker)


def replay(ctx, rep):
    if 'repro' in rep:
        return replay_repro(ctx, build_goeland(), rep)
    goe = Runner(build_goeland(), ctx.tmp)
    for _ in range(10):
        r = goe(rep['problem'], rep['options'], timeout=4)
        if claims(r):
            return '%s with %s although there is a countermodel %s\n%s' % (r.szs, rep['options'], rep['countermodel'], rep['problem'])
    return None
