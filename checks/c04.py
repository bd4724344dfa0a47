"""Bounds.  Every load, store, memcpy, memmove, memset, constructor and destructor in every container
operation stays inside the inline buffer or allocation it addresses; an element access with any
32-bit index yields exactly the addressed element or traps; views and ranges taken with arbitrary
bounds stay inside their source.  Both the release (-DNDEBUG) and the assert-enabled configuration
are analysed; in the latter an assertion may stop invalid arguments but never valid ones."""
from fuir import alloc, vecabs

REL = (('-DNDEBUG',), '', '')
DBG = ((), '^(?!.*(_junk|rangem_swap))', '_debug')


def run(ctx):
    ctx.rule('access [off, off+len) inside the region it addresses, for all sizes and indices')
    ctx.rule('index outside [0, size) traps; inside yields base + index * sizeof(T)')
    ctx.assumptions += ['signed int overflow does not occur (nsw)']
    vecabs.apply(ctx, ('oob', 'index', 'rep', 'uaf', 'overlap', 'assert'), [REL, DBG], 'bounds')
    alloc.run(ctx)
    ctx.need('contract_cases', 2500)
