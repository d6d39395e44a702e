"""Containers behave as their mathematical models."""
from .. import gopbt


def run(ctx):
    ctx.rule = ('random operation sequences over the containers of Lib and Glob compared after every operation with Go slices and maps (contents, size, membership, order, height of '
                'the balanced trees), copies included, and concurrent use of the synchronised ones; non-trivial = a sequence that grows a container to three elements (and removes one, '
                'for sets) or has four effective operations; distinct by the sequence')
    gopbt.run(ctx, 'c23', ctx.n(60000, 4000000), ctx.n(20, 600))


def replay(ctx, rep):
    return gopbt.replay(ctx, rep)
