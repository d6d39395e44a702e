"""The parser gives formulas their TPTP meaning."""
from .. import gopbt
from ..driver import build_goeland
from ..known import run_repros, replay_repro


def run(ctx):
    ctx.rule = ('random formulas with every connective, nested and shadowing quantifiers, equality, numbers, distinct objects and odd names, written as FOF or TFF in a random way the TPTP standard has for them '
                '(spacing, comments, brackets, quoted plain words, <=, <~>, ~|, ~&, !=, associative chains, split quantifier blocks, annotations, several statements and roles), parsed and elaborated, and '
                'compared with the formula they were written from, by structure and otherwise in 75 finite models; non-trivial = two of these ways or more on a formula of three nodes or more; distinct by the text')
    run_repros(ctx, build_goeland())
    half = ctx.n(13, 400)
    gopbt.run(ctx, 'c12', ctx.n(60000, 3000000), half, tests=['formulas'])
    gopbt.run(ctx, 'c12', ctx.n(60000, 3000000), half, tests=['formulas-flattened'])


def replay(ctx, rep):
    if 'repro' in rep:
        return replay_repro(ctx, build_goeland(), rep)
    return gopbt.replay(ctx, rep)
