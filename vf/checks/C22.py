"""Ground equality reasoning is congruence closure, whichever engine does it."""
from ..driver import *
from ..verdict import *

ENGINES = [[], ['-eagereq'], ['-sateq'], ['-sateq'], ['-sateq', '-preinner'], ['-flatten'], ['-core_limit', '1'], ['-dmt_before_eq', '-dmt'], ['-sateq', '-completeness']]


class CC:
    """Congruence closure over ground terms (and atoms, seen as terms equal to 'true')."""

    def __init__(self):
        self.par, self.terms = {}, []

    def add(self, t):
        if t not in self.par:
            for a in t[2]:
                self.add(a)
            self.par[t] = t
            self.terms.append(t)

    def find(self, t):
        while self.par[t] != t:
            t = self.par[t]
        return t

    def close(self):
        while True:
            seen, again = {}, False
            for t in self.terms:
                k = (t[1], tuple(self.find(a) for a in t[2]))
                if k in seen:
                    a, b = self.find(t), self.find(seen[k])
                    if a != b:
                        self.par[a] = b
                        again = True
                else:
                    seen[k] = t
            if not again:
                return

    def merge(self, s, t):
        self.par[self.find(s)] = self.find(t)


def contradictory(lits):
    cc = CC()
    true = ('f', '$true', ())
    cc.add(true)
    for pos, a in lits:
        for t in ([a[1], a[2]] if a[0] == '=' else [('f', '.' + a[1], a[2])]):
            cc.add(t)
    for pos, a in lits:
        if pos:
            if a[0] == '=':
                cc.merge(a[1], a[2])
            else:
                cc.merge(('f', '.' + a[1], a[2]), true)
    cc.close()
    for pos, a in lits:
        if not pos:
            s, t = (a[1], a[2]) if a[0] == '=' else (('f', '.' + a[1], a[2]), true)
            if cc.find(s) == cc.find(t):
                return True
    return False


def lits_of(rng, big):
    consts = ['a', 'b', 'c', 'd', 'e'][:rng.randint(2, 5 if big else 4)]
    funs = {'f': 1}
    if rng.random() < .5:
        funs['g'] = 2
    if rng.random() < .3:
        funs['h'] = 1
    preds = {'p': 1, 'r': 2} if rng.random() < .6 else {}

    def term(d):
        if d == 0 or rng.random() < .4:
            return F(rng.choice(consts))
        f = rng.choice(list(funs))
        return F(f, *[term(d - 1) for _ in range(funs[f])])
    pool = [term(2 if big else 1) for _ in range(rng.randint(2, 6 if big else 3))] + [F(c) for c in consts]
    for t in list(pool):     # one function over several members makes congruence matter
        if rng.random() < .4:
            f = rng.choice(list(funs))
            pool.append(F(f, *[rng.choice(pool) if i else t for i in range(funs[f])]))
    pool = [t for t in pool if tsize(t) <= (9 if big else 4)]
    lits = []
    for _ in range(rng.randint(1, 6 if big else 4)):
        lits.append((True, Eq(rng.choice(pool), rng.choice(pool))))
    for p, n in preds.items():
        for _ in range(rng.randint(0, 2)):
            lits.append((rng.random() < .6, P(p, *[rng.choice(pool) for _ in range(n)])))
    for _ in range(rng.randint(0, 2)):
        lits.append((False, Eq(rng.choice(pool), rng.choice(pool))))
    rng.shuffle(lits)
    return lits


def problem(rng, lits):
    forms = [a if pos else Not(a) for pos, a in lits]
    m = rng.random()
    if m < .4:
        return Problem(forms, None)
    if m < .8:
        last = lits[-1]
        return Problem(forms[:-1], Not(last[1]) if last[0] else last[1])
    if m < .9:
        return Problem([And(*forms)] if len(forms) > 1 else forms, None)
    return Problem([], Not(And(*forms)) if len(forms) > 1 else Not(forms[0]))


def run(ctx):
    ctx.rule = ('generated conjunction of 1-12 ground literals (equalities, disequalities, unary and binary predicates over nested terms), split '
                'into axioms and a conjecture, run without limit under one equality engine; the verdict must be the one of congruence closure; '
                'non-trivial = some equality and the closure is not decided by identical literals alone; distinct by problem and options')
    goe = Runner(build_goeland(), ctx.tmp)

    def case(i):
        rng = ctx.rng('c22', i)
        opts = rng.choice(ENGINES)
        big = '-sateq' in opts     # superposition explodes on sets that the SAT engine decides at once
        lits = lits_of(rng, big)
        want = contradictory(lits)
        if not want and rng.random() < .5:     # balance the two verdicts
            for _ in range(20):
                lits = lits_of(rng, big)
                want = contradictory(lits)
                if want:
                    break
        pr = problem(rng, lits)
        r = goe(pr.text(), opts, timeout=2)
        trivial = not any(p and a[0] == '=' and a[1] != a[2] for p, a in lits)
        out = dict(cls='%s %s' % ('contradiction' if want else 'model', ' '.join(opts)), key=(pr.text(), opts), nontriv=not trivial, inc=r.res is None,
                   sample={'options': opts, 'problem': pr.text(), 'contradictory': want, 'verdict': r.szs})
        if (want and refutes(r)) or (not want and claims(r)):
            out['bad'] = ('%s under %s, but congruence closure says the literals are %s' % (r.szs, opts, 'contradictory' if want else 'satisfiable'),
                          dict(problem=pr.text(), options=opts, contradictory=want))
            out.update(lits=lits, opts=opts, want=want)
        return out

    def shr(o):
        cur = o['lits']

        def bad(ls):
            w = contradictory(ls)
            r = goe(Problem([a if p else Not(a) for p, a in ls], None).text(), o['opts'], timeout=3)
            return (w and refutes(r)) or (not w and claims(r))
        if not bad(cur):
            return None
        k = 0
        while k < len(cur):
            if len(cur) > 1 and bad(cur[:k] + cur[k + 1:]):
                cur = cur[:k] + cur[k + 1:]
            else:
                k += 1
        p = Problem([a if s else Not(a) for s, a in cur], None)
        return ('%s under %s; smallest:\n%s' % (o['bad'][0], o['opts'], p.text()), dict(problem=p.text(), options=o['opts'], contradictory=contradictory(cur)))
    drive(ctx, case, (6000, 200000), (35, 1000), shr)


def replay(ctx, rep):
    r = Runner(build_goeland(), ctx.tmp)(rep['problem'], rep['options'], timeout=30)
    if (rep['contradictory'] and refutes(r)) or (not rep['contradictory'] and claims(r)):
        return 'verdict %s on\n%s' % (r.szs, rep['problem'])
    return None
