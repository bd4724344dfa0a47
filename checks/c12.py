"""Cached build products of the driver: what names them, what may create them, what may reuse them."""
from fuir import cachekey


def run(ctx):
    ctx.assumptions += ['equal names mean equal texts under the digest', 'the toolchain itself and files the generated sources include do not change',
                        'pkg-config answers are a function of the package names']
    cachekey.run(ctx)
