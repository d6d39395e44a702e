"""Binders, substitution and renaming against a reference."""
from .. import gopbt


def run(ctx):
    ctx.rule = ('random formulas with shadowing and vacuous binders over terms and types, metavariables, polymorphic symbols and names that look like the ones renaming makes; '
                'renaming, opening quantifiers, replacing metavariables, types and terms, instantiation, equality, copies, sub-terms and sub-formulas compared with a reference through '
                'a canonical form without names; arguments must stay unchanged; non-trivial = two binders or more (terms: more than three symbols); distinct by the formula and the operations')
    gopbt.run(ctx, 'c24', ctx.n(60000, 3000000), ctx.n(30, 800))


def replay(ctx, rep):
    return gopbt.replay(ctx, rep)
