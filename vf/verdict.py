"""Running the prover on generated problems and judging the verdict against an independent classification."""
import os, random, re, time
from .probs import *
from .run import goeland, SZS, RES
from .shrink import shrink

CLAIM = ('Theorem', 'Unsatisfiable', 'ContradictoryAxioms')
REFUTE = ('CounterSatisfiable', 'Satisfiable')

MODES = [[], [], [], ['-inner'], ['-preinner'], ['-preinner'], ['-flatten'], ['-completeness'], ['-dmt'], ['-dmt', '-inner'],
         ['-dmt', '-preinner'], ['-flatten', '-inner'], ['-completeness', '-preinner'], ['-completeness', '-flatten'],
         ['-noeq'], ['-core_limit', '1'], ['-exchanges', '@ex']]
EQMODES = [[], [], [], ['-inner'], ['-preinner'], ['-flatten'], ['-completeness'], ['-eagereq'], ['-sateq'], ['-sateq'], ['-sateq', '-preinner'],
           ['-sateq', '-completeness'],
           ['-dmt'], ['-dmt', '-dmt_before_eq'], ['-eagereq', '-preinner'], ['-eagereq', '-flatten'], ['-noeq'], ['-core_limit', '1']]


class Runner:
    def __init__(self, binary, tmp):
        self.binary, self.tmp = binary, tmp

    def path(self, name=None):
        return os.path.join(self.tmp, name or 'w%d.p' % os.getpid())

    def __call__(self, text, opts=(), timeout=4, name=None, **kw):
        fn = self.path(name)
        with open(fn, 'w') as f:
            f.write(text)
        opts = list(opts)
        if '-exchanges' in opts:     # a flag that dumps exchanges in a file of the working directory
            opts = [o for o in opts if o not in ('-exchanges', '@ex')]
        return goeland(self.binary, fn, opts, timeout=timeout, **kw)


def claims(r):
    return r.res == 'VALID' or r.szs in CLAIM


def refutes(r):
    return r.res == 'NOT VALID' or r.szs in REFUTE


def drive(ctx, fn, count, cap, shrinker=None, maxbad=2, stop=3, items=None):
    """Run fn over the case numbers in parallel and book-keep. fn returns a dict with 'cls' and, for a case that counts, 'key',
    'sample', 'nontriv' (default True), 'inc' (inconclusive), 'bad' = (what, replay dict). shrinker(case) -> (what, replay)."""
    bad = []
    it = items if items is not None else range(ctx.n(*count))
    for o in ctx.pmap(fn, it, cap_s=ctx.n(*cap), stop_on=lambda: len(bad) >= stop):
        for o in (o if isinstance(o, list) else [o]):
            if 'key' in o:
                ctx.record(o['key'], o.get('nontriv', True) and not o.get('inc'), o.get('sample'), o['cls'])
                ctx.inconclusive += bool(o.get('inc'))
                if o.get('known'):
                    if o['known'] not in ctx.known_hits:
                        ctx.known_hits.append(o['known'])
                if o.get('bad'):
                    bad.append(o)
            else:
                ctx.cls(o['cls'])
    for o in bad[:maxbad]:
        what, rep = (shrinker(o) or o['bad']) if shrinker else o['bad']
        ctx.violation(what, rep)
    return bad
