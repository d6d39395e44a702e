"""Greedy structural shrinking of problems (axiom removal, subformula hoisting, term simplification)."""
from .fol import *


def term_shrinks(t):
    if t[0] == 'f' and t[2]:
        for a in t[2]:
            yield a
        for i, a in enumerate(t[2]):
            for b in term_shrinks(a):
                yield ('f', t[1], t[2][:i] + (b,) + t[2][i + 1:])
    elif t[0] == 'v':
        return


def form_shrinks(f):
    """smaller variants; may create free variables (the caller filters)"""
    k = f[0]
    for g in subforms(f):
        yield g
    if k in ('p', '=', 'not', 'and', 'or', 'all', 'ex') or k in BIN:
        if k != 'top' and k != 'bot' and not (k == 'p' and not f[2] and False):
            yield ('top',)
            yield ('bot',)
    if k == 'p':
        for i, a in enumerate(f[2]):
            for b in term_shrinks(a):
                yield ('p', f[1], f[2][:i] + (b,) + f[2][i + 1:])
    elif k == '=':
        for b in term_shrinks(f[1]):
            yield ('=', b, f[2])
        for b in term_shrinks(f[2]):
            yield ('=', f[1], b)
    elif k == 'not':
        for g in form_shrinks(f[1]):
            yield ('not', g)
    elif k in ('and', 'or'):
        if len(f[1]) > 2:
            for i in range(len(f[1])):
                yield (k, f[1][:i] + f[1][i + 1:])
        for i, g in enumerate(f[1]):
            for h in form_shrinks(g):
                yield (k, f[1][:i] + (h,) + f[1][i + 1:])
    elif k in BIN:
        for h in form_shrinks(f[1]):
            yield (k, h, f[2])
        for h in form_shrinks(f[2]):
            yield (k, f[1], h)
    elif k in ('all', 'ex'):
        if len(f[1]) > 1:
            for i in range(len(f[1])):
                yield (k, f[1][:i] + f[1][i + 1:], f[2])
        for h in form_shrinks(f[2]):
            yield (k, f[1], h)


def weight(f):
    # constants weigh less than anything else so the shrink order is well founded
    k = f[0]
    if k in ('top', 'bot'):
        return 1
    if k == 'p':
        return 2 + sum(tsize(a) for a in f[2])
    if k == '=':
        return 2 + tsize(f[1]) + tsize(f[2])
    if k in ('all', 'ex'):
        return 1 + len(f[1]) + weight(f[2])
    return 1 + sum(weight(g) for g in subforms(f))


def problem_shrinks(p):
    for i in range(len(p.axioms)):
        if len(p.axioms) > 1 or p.conj is not None:
            yield Problem(p.axioms[:i] + p.axioms[i + 1:], p.conj)
    if p.conj is not None and p.axioms:
        yield Problem(p.axioms, None)
    cands = []
    for i, a in enumerate(p.axioms):
        for b in form_shrinks(a):
            if not free_vars(b):
                cands.append((weight(b) - weight(a), Problem(p.axioms[:i] + [b] + p.axioms[i + 1:], p.conj)))
    if p.conj is not None:
        for b in form_shrinks(p.conj):
            if not free_vars(b):
                cands.append((weight(b) - weight(p.conj), Problem(p.axioms, b)))
    cands = [c for c in cands if c[0] < 0]
    cands.sort(key=lambda c: c[0])
    for _, q in cands:
        yield q


def pweight(p):
    return sum(weight(f) + 1 for f in p.all_forms())


def shrink(p, bad, budget=400, deadline=None):
    """bad(problem) -> bool; greedy descent"""
    import time
    steps = 0
    progress = True
    while progress:
        progress = False
        for q in problem_shrinks(p):
            if steps >= budget or (deadline and time.time() > deadline):
                return p
            steps += 1
            if bad(q):
                p = q
                progress = True
                break
    return p
