"""Hot reload of shared libraries (include/dl): replaced functions, library files, registration, requests."""
from fuir import hotswap


def run(ctx):
    ctx.assumptions += ['dlopen and dlsym return null exactly on failure', 'the reload signal is delivered one at a time']
    hotswap.run(ctx)
