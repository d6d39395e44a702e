"""Soundness of the verdict on untyped problems with equality."""
from . import C01
from ..verdict import *


def run(ctx):
    C01.EQ = True
    ctx.rule = C01.__doc__
    ctx.rule = ('generated untyped problem with equality (families random/wide/clauses/prefix/mutant/prop) run under one option set (all '
                'equality modules) with a bounded search; non-trivial = an explicit finite countermodel was found and re-evaluated and the '
                'prover gave a verdict; distinct by problem text and options')
    C01.do(ctx, True, EQMODES, (5500, 100000), (80, 1500))


replay = C01.replay
