"""Parallel loops: path rules over the parallel runtime (include/par, include/lockfree)."""
import os
from fuir import parrules as P, env


class Quiet:
    """swallows what belongs to C05"""
    def count(self, *a): pass
    def violation(self, *a): pass
    def sample(self, *a): pass
    def fn(self, *a): pass


def guard(ctx, what, fn, *a):
    try:
        return fn(*a)
    except P.Undecided as e:
        ctx.count('undecided_shapes')
        ctx.sample('undecided: %s: %s' % (what, e))
    except (KeyError, StopIteration, OverflowError) as e:
        ctx.count('undecided_shapes')
        ctx.sample('undecided: %s: shape not recognised (%s)' % (what, e))


def all_rules(ctx, order):
    fs = {f.dem.split('(')[0]: f for f in P.functions()}
    lam = next((f for f in P.functions() if f.dem.endswith('__invoke(fu::Task*)')), None)
    for a, n in ((4, ''), (3, '3')):
        guard(ctx, 'stack', P.Stack(ctx, a, fs['fu::op__stack_push' + n], fs['fu::op__stack_pop' + n], n).run, order)
    guard(ctx, 'counter', P.pbc, ctx, fs['fu::op__pbc_dec'], fs.get('fu::op__pbc_wait'), order)
    if lam is None:
        ctx.count('undecided_shapes')
    off = lam and guard(ctx, 'splitter', P.parfor, ctx, fs['fu::op__parfor'], lam, fs['fu::op__parfor_tpl'], order)
    for n in ('fu::op__trywork', 'fu::op__worker', 'fu::op__pbc_wait'):
        guard(ctx, n, lambda: P.runners(ctx, fs[n], P.traces(fs[n]), off))
    return fs


def run(ctx):
    ctx.rule('batches: start(0) = 0, end(j) = start(j+1), end(last) = size, records fit their storage; submitted and directly run batches cover 0..last once')
    ctx.rule('a task runs the body once on its own range, then decrements the pending counter once and touches nothing of the caller afterwards')
    ctx.rule('the caller returns only after seeing the counter at zero; the wake-up of the last batch cannot be lost')
    ctx.rule('every node taken off the task stack is run once; a failed exchange retries with the current head; the counter in the head advances')
    ctx.assumptions += ['per_batch >= 1 (the library passes max(min, 1))', 'user pointers fit in 48 bits', 'arithmetic on sizes does not overflow']
    ctx.rule('loops of generated code visit start..end-1 of their batch once each and never ask for empty batches')
    all_rules(ctx, P.Order(Quiet()))
    for root, gen in ((env.REPO, False), (env.cpp_tree() + '/gen', True)):
        mods = [os.path.relpath(f, root)[:-7] for d in ('src', 'lib') for f in env.walk(os.path.join(root, d), ('.fu.cpp',)) if 'fu::parallel_for(' in open(f).read()]
        mods = [m for m in mods if not env.f_is_unity(m)]
        try:
            bcs = env.module_bc(*mods) if gen else env.snapshot_bc(*mods)
        except env.Broken as e:
            if gen:
                raise
            ctx.count('undecided_shapes')
            ctx.sample('snapshot modules not analysed: %s' % str(e)[-300:])
            continue
        for m in mods:
            guard(ctx, m, P.generated, ctx, m + ('.fu' if gen else '.fu.cpp'), bcs[m])
    ctx.need('generated_loops', 1)
