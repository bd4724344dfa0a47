"""Comparison and search.  Every comparator, equality / ordering operator and find / has / starts / ends of
the bootstrap modules, and one instance per operand shape of the runtime's templates, is interpreted with
operands as uninterpreted contents: paths are split on the sign of each comparison, loops are summarised by
what holds of all earlier elements, and each return is judged against the facts of its path (everything
compared equal; first difference in one fixed order; first match; whole range searched)."""
from fuir import seqcmp


def run(ctx):
    ctx.assumptions += ['nested comparators are judged on their own (assume-guarantee)', 'bytes compare as memcmp / the element type orders them',
                        'lengths are non-negative']
    seqcmp.run(ctx)
