"""Deferred blocks."""
from fuir import deferred


def run(ctx):
    ctx.assumptions += ['std::uncaught_exceptions counts the exceptions being unwound']
    deferred.run(ctx)
