"""Container value semantics.  Every operation of vec / view / vec_range on every representation (inline,
empty, uniquely owned, shared, two vectors sharing one block, source inside the destination) is
abstractly interpreted against its contract in harness/rt_vec.spec, in a domain of affine
inequalities, bit provenance of the packed header and array segmentation of the element storage.
Reported here: writes to a block another vector may share, result vectors whose content differs from
the contract, corrupted representations, memcpy of overlapping ranges."""
from fuir import vecabs

REL = (('-DNDEBUG',), '', '')


def run(ctx):
    ctx.rule('no write to a heap block unless this vector is its only owner')
    ctx.rule('content of every vector at return = contract, element range by element range')
    ctx.assumptions += ['signed int overflow does not occur (nsw)', 'elements are relocatable by memcpy, as the runtime assumes',
                        'another thread only ever adds or drops shares of a block; it never writes elements']
    vecabs.apply(ctx, ('cow', 'content', 'rep', 'overlap', 'rc', 'uaf'), [REL], 'value semantics')
    ctx.need('contract_cases', 2500)
