"""Numbers to text, printing, panics."""
from fuir import text


def run(ctx):
    text.run(ctx)
