"""The term ordering is a simplification ordering and its constraints are judged rightly."""
from .. import gopbt


def run(ctx):
    ctx.rule = ('random pairs and triples of terms (subterms, same heads, mutations) compared and judged against the definition of the lexicographic path ordering, both ways, in contexts and '
                'against random ground instances; random sequences of ordering and equality constraints built around a hidden ground solution, none of which may be refused; '
                'non-trivial = two different terms of more than three symbols that are comparable, or two constraints or more that stay pending; distinct by the terms')
    gopbt.run(ctx, 'c21', ctx.n(400000, 12000000), ctx.n(20, 800))


def replay(ctx, rep):
    return gopbt.replay(ctx, rep)
