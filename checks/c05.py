"""Ordering of shared-memory accesses in the parallel runtime and the reference counts."""
from fuir import parrules as P, constops, vecabs
import c03


def run(ctx):
    ctx.rule('publishing compare-exchange: release; taking one: acquire; final decrement: release; observing zero: acquire (or an equivalent fence)')
    ctx.rule('share counts change by single atomic read-modify-writes; dropping the last share is release and acquire; observing uniqueness is acquire')
    ctx.assumptions += ['C++ memory model; address dependencies order the read of a node after the read of the head']
    q = c03.Quiet()
    fs = c03.all_rules(q, P.Order(ctx))
    c03.guard(ctx, 'arc', P.arc, ctx, fs, P.Order(ctx))
    ctx.rule('an operand a vector operation takes by const reference is not written')
    constops.run(ctx, vecabs.SRC)
    ctx.need('const_operands', 100)
    ctx.need('ordering_obligations', 1)
