"""Publication of build products.  The compiler driver (bootstrap src/build.fu.cpp) is interpreted with
every string as a list of words, a word being the set of fresh random names it was made from, and with
the set of fresh files completely produced on the path: writes and compiler outputs go to fresh names
only, a rename to a final name needs its source produced successfully on that very path, published names
are never unlinked or chmod-ed.  Fresh names really contain digits of a number that the generator never
hands out twice from one state (atomic update, retried on failure).  file::write truncates and its loop
keeps the end of the data fixed while advancing by the count the OS returned."""
from fuir import pub


def run(ctx):
    ctx.assumptions += ['rename(2) replaces the target atomically', 'two 40-bit random suffixes for one name do not collide by chance',
                        'an exception publishes nothing: unwinding only destroys locals']
    pub.run(ctx)
