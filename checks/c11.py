"""Sorted sets and maps of the compiler (flat.fu): binary searches and the changes made where they end."""
from fuir import sorted as srt


def run(ctx):
    ctx.assumptions += ['the comparators form a total order (C10)', 'sequences are ascending on entry', 'fewer than 2^30 elements']
    srt.run(ctx)
