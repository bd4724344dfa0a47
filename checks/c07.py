"""Failure reporting.  Rule 1 (lib): in every function of the file/fs/process/signal library that has
a way to report an OS error (Errno result or Errno reference), each system call and each
Errno-returning helper is forked into 'failed' and 'succeeded'; on every path where one failed, the
function's Errno must be definitely non-zero at the return unless the path recognised that particular
errno value.  Rule 2: a path that recognised an errno and then repeated the same call successfully
must not return a definite error.  Rule 3: a loop around read/write derives the next buffer position
and length from the byte count the OS returned, and a transfer that stops short is not reported as
success.  Rule 4 (compiler driver): after a failed write/rename/chmod/compiler run, the build
functions never return success.  Anonymous lambdas and defers are analysed inlined at their place."""
import re
from fuir import env, ir, cxxsig, errflow, absint, transfer
from fuir.ir import const

# harness modules instantiate generic library functions the compiler itself does not use
HARNESS = {'zz/zz_fs': ('readdir', 'zz_readdir', 'collect'), 'zz/zz_loop': ('watch_files', 'spawn')}
SNAP = ('lib/file', 'lib/fs', 'lib/exec', 'lib/spawn')      # committed bootstrap modules (lib/*.fu.cpp)
LIB = ('lib/file', 'lib/fs', 'lib/FD', 'lib/spawn', 'lib/signal', 'lib/exec', 'lib/ev/Loop')
PUB = ('write', 'rename', 'chmod', 'atomic_write', 'exec', 'spawn')
# (module, function, callee): result deliberately unused, with the reason
EXEMPT = {
    ('src/build', 'WRITE_cachedTestOutput', 'atomic_write'): 'best-effort cache of a test result; a miss re-runs the test',
    ('src/build', 'buildUnit', 'atomic_write'): 'content-addressed source file; the compiler run that reads it reports a missing file',
    ('src/build', 'ERR', 'atomic_write'): 'diagnostic dump on a path that already throws',
    ('src/build', 'gcc_version', 'exec'): 'the exit code is made part of the returned text',
}
EXEMPT.update({
    ('src/build.cpp', 'buildFile', 'atomic_write'): 'content-addressed source file; the compiler run that reads it reports a missing file',
    ('src/build.cpp', 'ERR', 'atomic_write'): 'diagnostic dump on a path that already throws',
    ('src/build.cpp', 'gcc_version', 'exec'): 'the exit code is made part of the returned text',
    ('src/build.cpp', 'build', 'WRITE_StatusCode'): 'best-effort cache of a test result; a miss re-runs the test',
})
# a step that failed here may have been done by a concurrent build: the object file exists
RECOVER = ('CACHE_objFileAvailable', 'size')
ARGS = ['-inline', '-keepfile', '/include/', '-inlfile', 'fu/defer', '-passes', 'function(sroa,early-cse)']


def base(n):
    return ir.unhash(n)


def run(ctx):
    sigs = cxxsig.signatures()
    errfns = {n for n, d in sigs.items() if cxxsig.errno_type(d['ret'])}
    ctx.rule('failed OS call or helper => non-zero Errno at every return, unless that errno was recognised')
    bc = env.module_bc(*(LIB + tuple(HARNESS)))
    keep = '(%s)' % '|'.join(sorted(errfns))
    for m in LIB + tuple(HARNESS):
        P = ir.load([bc[m]], ARGS + ['-keepbase', keep])
        for f in P.fns.values():
            sig = sigs.get(f.base)
            if sig is None or sig['file'] != m + '.fu.cpp':
                continue
            if m in HARNESS and base(f.base) not in HARNESS[m]:
                continue
            c = analyse(ctx, m, f, sig, errfns, errfns)
            transfers(ctx, m, f)
            if c and (c.reports_ret or c.errargs):
                ctx.fn('%s:%s' % (m, base(f.base)))
    ctx.need('lib_call_sites', 50)
    ctx.need('lib_functions', 30)
    ctx.need('transfer_loops', 4)
    snapshot(ctx)
    driver(ctx, sigs, errfns)
    ctx.need('driver_call_sites', 12)


def snap_sigs():
    """The bootstrap snapshot has no Errno type: exported functions that return int and make system
    calls return an errno."""
    sigs = cxxsig.signatures(env.REPO)
    bcs = env.snapshot_bc(*SNAP)
    progs, errfns = {}, set()
    for m in SNAP:
        progs[m] = P = ir.load([bcs[m]], ARGS + ['-max', '6000'])
        for f in P.fns.values():
            sig = sigs.get(f.base)
            if sig and sig['file'] == m + '.fu.cpp' and any(i.callee in errflow.SYS for i in f.calls()) and \
                    (sig['ret'] == 'int' or cxxsig.errno_type(sig['ret'])):
                sig['ret'] = 'Errno'
                errfns.add(f.base)
    return sigs, progs, errfns


def snapshot(ctx):
    sigs, progs, errfns = snap_sigs()
    for m, P in progs.items():
        for f in P.fns.values():
            if f.base in errfns:
                analyse(ctx, m, f, sigs[f.base], errfns, errfns, tag='.cpp')
                transfers(ctx, m, f, tag='.cpp')
                ctx.fn('%s.cpp:%s' % (m, base(f.base)))
                ctx.count('snapshot_functions')
    ctx.need('snapshot_functions', 9)
    snapshot_driver(ctx, sigs, errfns)
    continuation(ctx)


def continuation(ctx):
    """Rule 3, path by path, on the committed modules (see fuir/transfer.py)."""
    ctx.rule('partial transfers: position += count, length -= count, nothing missing on success, all received bytes appended')
    mods = ('lib/file', 'lib/exec', 'lib/spawn')
    for m, bc in env.snapshot_bc(*mods, defs=('-DNDEBUG',)).items():
        raw = ir.load([bc], [])
        bases = {f.base for f in raw.fns.values() if any(i.callee in transfer.NAMES for i in f.calls())}
        if not bases:
            continue
        root = '(%s)' % '|'.join(re.escape(b) for b in sorted(bases))
        P = ir.load([bc], ['-inline', '-root', root, '-keepfile', '/include/', '-inlfile', 'fu/defer', '-passes',
                           'function(sroa,early-cse,simplifycfg)'])
        for f in P.fns.values():
            if f.base not in bases or not f.name.endswith('.inl') or not f.blocks:
                continue
            name = base(f.base)
            if name.startswith(('_Z', 'operator')):
                name = 'a lambda'

            def rep(kind, i, msg, m=m, name=name):
                ctx.violation('%s.cpp %s %s %s' % (m, name, i.callee, kind), '%s at %s' % (msg, i.where()))
            transfer.check(f, name, rep, ctx.count)
    ctx.need('transfer_traced', 3)
    ctx.need('transfer_steps', 6)


def analyse(ctx, m, f, sig, errfns, tracked, driver=False, tag='', sigs=None):
    name = base(f.base)
    m += tag
    what = 'driver' if driver else 'lib'

    def rep(fn, site, ret, E, st):
        callee = base(errflow.fname(site))
        if (m, name, callee) in EXEMPT:
            return
        ctx.violation('%s %s %s dropped' % (m, name, callee),
                      '%s: %s can fail at %s and %s still returns without a definite error (return at %s)' %
                      (m, callee, site.where(), name, ret.where()))

    def spurious(fn, site, ret, E, st):
        callee = base(errflow.fname(site))
        ctx.violation('%s %s %s spurious' % (m, name, callee),
                      '%s: after recovering from a recognised errno of %s (%s) by repeating it successfully, %s '
                      'still returns that error (%s)' % (m, callee, site.where(), name, ret.where()))
    c = errflow.ErrClient(f, sig, tracked, rep)
    c.spurious = spurious
    if driver:
        c.int_ret = True
        c.recover = RECOVER
        c.sigs = sigs
    elif not c.reports_ret and not c.errargs:
        # no way to report an errno: its body is analysed where it is inlined into its callers
        return None
    if not any(c.kind(i) for i in f.calls()):
        return None
    E = absint.Engine(f, c)
    E.run()
    if not c.rets and not f.d.get('noret') and not driver:
        raise env.Broken('no return reached in %s' % f.dem)
    ctx.count(what + '_functions')
    ctx.count(what + '_call_sites', len(c.sites))
    ctx.count('paths_to_return', c.rets)
    ctx.count('abstract_steps', E.steps)
    for s in c.sites.values():
        ctx.sample('%s %s: %s' % (m, name, base(errflow.fname(s))))
    return c


def slice_back(f, v, stop=200000):
    """ids of all values v may be computed from, through phis and loads of non-escaping locals."""
    stores = {}
    for i in f.insts():
        if i.op == 'store':
            r, o = ir.ptr_base(f, i.ops[1])
            if isinstance(r, int):
                stores.setdefault(r, []).append(i.ops[0])
    out, w = set(), [v]
    while w:
        x = w.pop()
        if not isinstance(x, int) or x in out:
            continue
        out.add(x)
        i = f.inst.get(x)
        if i is None:
            continue
        if i.op == 'load':
            r, o = ir.ptr_base(f, i.ops[0])
            if isinstance(r, int) and r in f.inst and f.inst[r].op == 'alloca':
                w += stores.get(r, [])
            continue
        w += ir.opvals(i)
    return out


def transfers(ctx, m, f, tag=''):
    """Rule 3."""
    ctx.rule('read/write in a loop: next buffer position and length derive from the returned count')
    name = base(f.base)
    m += tag
    for i in f.calls():
        if i.callee not in ('read', 'write', 'pread', 'pwrite'):
            continue
        loop = i.blk in set().union(*[f.reach(e.dst, unwind=False) for e in f.succ[i.blk]] or [set()])
        if not loop:
            # single transfer: the count must reach the caller or be compared
            us = f.users.get(i.id, [])
            ctx.count('transfer_single')
            if not us:
                ctx.violation('%s %s %s count' % (m, name, i.callee), '%s: byte count of %s at %s is ignored' % (name, i.callee, i.where()))
            continue
        r, _ = ir.ptr_base(f, i.ops[1])
        local = isinstance(r, int) and r in f.inst and f.inst[r].op == 'alloca'
        ctx.count('transfer_loops')
        body = {b for b in f.reach(i.blk, unwind=False) if i.blk in f.reach(b, unwind=False)}

        def fixed(v):
            """v cannot change with the returned count: no path through SSA or memory."""
            sl = slice_back(f, v)
            return i.id not in sl and not any(x in f.inst and f.inst[x].blk in body and
                                              f.inst[x].op in ('load', 'call', 'invoke') for x in sl)
        if not local and fixed(i.ops[1]):
            ctx.violation('%s %s %s position' % (m, name, i.callee),
                          '%s: %s at %s repeats in a loop with a buffer position that does not advance by the '
                          'count of the previous transfer' % (name, i.callee, i.where()))
        if not local and fixed(i.ops[2]):
            ctx.violation('%s %s %s length' % (m, name, i.callee),
                          '%s: %s at %s repeats in a loop with a length that does not shrink by the count of the '
                          'previous transfer' % (name, i.callee, i.where()))


def driver(ctx, sigs, errfns):
    ctx.rule('driver: after a failed publication call no path returns success')
    m = 'src/build'
    bc = env.module_bc(m)
    ef = {n for n in sigs if base(n) in PUB and (n in errfns or sigs[n]['file'] == m + '.fu.cpp' and sigs[n]['ret'] == 'int')}
    P = ir.load([bc[m]], ARGS + ['-keepbase', r'.*_\w{4}'])
    for f in P.fns.values():
        sig = sigs.get(f.base)
        if sig is None or sig['file'] != m + '.fu.cpp':
            continue
        if any(errflow.fname(i) in ef for i in f.calls()):
            ctx.fn('%s:%s' % (m, base(f.base)))
            analyse(ctx, m, f, sig, errfns, ef, driver=True, sigs=sigs)


def snapshot_driver(ctx, sigs, errfns):
    m = 'src/build'
    P = ir.load([env.snapshot_bc(m)[m]], ARGS + ['-keepbase', r'.*_\w{8,11}'])
    ints = {f.base for f in P.fns.values() if f.base in sigs and sigs[f.base]['file'] == m + '.fu.cpp' and sigs[f.base]['ret'] == 'int'}
    ef = {n for n in sigs if base(n) in PUB + ('WRITE_StatusCode',) and (n in errfns or n in ints)}
    for f in P.fns.values():
        sig = sigs.get(f.base)
        if sig is None or sig['file'] != m + '.fu.cpp':
            continue
        if any(errflow.fname(i) in ef for i in f.calls()):
            ctx.fn('%s.cpp:%s' % (m, base(f.base)))
            analyse(ctx, m, f, sig, errfns, ef, driver=True, tag='.cpp', sigs=sigs)
            ctx.count('snapshot_driver_functions')
    ctx.need('snapshot_driver_functions', 5)
