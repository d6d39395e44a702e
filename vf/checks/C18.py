"""Merging and applying substitutions obeys the algebra."""
from .. import gopbt


def run(ctx):
    ctx.rule = ('random substitutions over shared metavariables (terms and types): merging judged against a textbook solution of the union of their equations (exists, most general, '
                'applied to itself already); applying them to terms, formulas and lists judged against applying every binding everywhere; restricting them to the metavariables of the father judged by '
                'the instances of these; set, get, remove, copy, equality and membership judged against a map; resolution of chained bindings, unifiers kept for proofs, and sorting by relevance likewise; '
                'non-trivial = both substitutions bind something, the term changes, or bindings refer to one another; distinct by the substitutions')
    gopbt.run(ctx, 'c18', ctx.n(200000, 6000000), ctx.n(25, 800))


def replay(ctx, rep):
    return gopbt.replay(ctx, rep)
