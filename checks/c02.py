"""Ownership.  On every abstract path of every container operation (see C01 for the domain) the reference count
of each heap block equals the number of vectors left holding it plus unknown outside owners, a block
is deallocated exactly when its last owner lets go and with the size it was allocated with, and every
element is conserved: kept in exactly one vector or destroyed exactly once."""
from fuir import alloc, vecabs

REL = (('-DNDEBUG',), '', '')


def run(ctx):
    ctx.rule('block released exactly once, by its last owner, with its own size')
    ctx.rule('elements before = elements kept + elements destroyed, each exactly once')
    ctx.assumptions += ['signed int overflow does not occur (nsw)', 'elements are relocatable by memcpy, as the runtime assumes']
    vecabs.apply(ctx, ('rc', 'free', 'destroy', 'leak', 'uaf', 'rep', 'cow'), [REL], 'ownership')
    alloc.run(ctx)
    ctx.need('contract_cases', 2500)
