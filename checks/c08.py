"""Allocator.  fu_ARC_ALLOC, fu_UNIQ_ALLOC, their deallocators and fu_ALLOC<T> are interpreted over LLVM IR with
intervals and known bits for a partition of every request size (and malloc failing), in the debug, release and
leak-detecting configurations; each allocation outcome is composed with the release of that block."""
from fuir import alloc


def run(ctx):
    ctx.assumptions += ['malloc returns NULL or a 16-byte aligned block of the size asked for', 'size_t is 64 bits']
    alloc.run(ctx)
