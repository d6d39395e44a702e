"""Term indexing retrieves exactly the unifiable atoms."""
from .. import gopbt


def run(ctx):
    ctx.rule = ('random sets of atoms (or terms) over shared metavariables put in an index, queried with three atoms; each answer judged against a textbook unification: every unifiable '
                'stored atom is found, nothing else is, each substitution unifies and is most general; unification of two terms under a substitution likewise; non-trivial = at least '
                'one unifiable pair in an index of two atoms or more, or a pair of terms of more than four symbols with metavariables; distinct by the atoms')
    gopbt.run(ctx, 'c17', ctx.n(200000, 6000000), ctx.n(25, 800))


def replay(ctx, rep):
    return gopbt.replay(ctx, rep)
