"""Printed formulas read back as the same formula."""
from .. import gopbt


def run(ctx):
    ctx.rule = ('random formulas with every connective, nested and shadowing quantifiers, equality, numbers, distinct objects, names that need no quotes and, with the quoting printer, names '
                'that need them; printed, parsed and elaborated again, and compared up to the names of bound variables and the nesting of one connective; non-trivial = four connectives '
                'and atoms or more; distinct by the printed text')
    gopbt.run(ctx, 'c25', ctx.n(200000, 5000000), ctx.n(25, 800))


def replay(ctx, rep):
    return gopbt.replay(ctx, rep)
