"""Resource ownership.  Every named function of the file/fs/process/signal/socket library is analysed
with its same-module callees inlined: each acquisition of a descriptor (open, pipe2, socket, accept4,
epoll_create1, inotify_init1, signalfd), stream (popen), directory handle (opendir), spawn
attribute/action object or malloc'ed C string is tracked per path, with every system call forked into
failed and succeeded.  Violations: a resource that is still open and not handed to the caller at a
return, or re-acquired while open (leak); a resource released twice or used after its release.
Second rule (inheritance): every descriptor-creating call carries its close-on-exec flag, and the
descriptors meant for a child's standard streams do not."""
from fuir import env, ir, cxxsig, errflow, resflow, absint
from fuir.ir import const

LIB = ('lib/file', 'lib/fs', 'lib/FD', 'lib/spawn', 'lib/signal', 'lib/exec', 'lib/ev/Loop')
HARNESS = {'zz/zz_fs': ('readdir', 'zz_readdir', 'collect'), 'zz/zz_loop': ('watch_files', 'spawn')}
ARGS = ['-inline', '-keepfile', '/include/', '-inlfile', 'fu/defer', '-max', '6000', '-passes', 'function(sroa,early-cse)']
CLOEXEC = 0o2000000
# callee -> index of the flag argument, flag
FLAG = {'open': (1, CLOEXEC), 'open64': (1, CLOEXEC), 'openat': (2, CLOEXEC), 'pipe2': (1, CLOEXEC), 'socket': (1, CLOEXEC),
        'accept4': (3, CLOEXEC), 'epoll_create1': (0, CLOEXEC), 'inotify_init1': (0, CLOEXEC), 'signalfd': (2, CLOEXEC),
        'dup3': (2, CLOEXEC), 'eventfd': (1, CLOEXEC), 'timerfd_create': (1, CLOEXEC), 'memfd_create': (1, 1)}
NOFLAG = ('pipe', 'accept', 'epoll_create', 'inotify_init', 'creat', 'dup')
base = ir.unhash


def run(ctx):
    sigs = cxxsig.signatures()
    errfns = {n for n, d in sigs.items() if cxxsig.errno_type(d['ret'])}
    bc = env.module_bc(*(LIB + tuple(HARNESS)))
    ctx.rule('acquired resource is released exactly once or handed over on every path to a return')
    ctx.rule('descriptor-creating calls set close-on-exec; child standard streams do not')
    for m in LIB + tuple(HARNESS):
        extra = [bc['lib/FD']] if m != 'lib/FD' else []
        P = ir.load([bc[m]] + extra, ARGS)
        for f in P.fns.values():
            sig = sigs.get(f.base)
            if sig is None or sig['file'] != m + '.fu.cpp' or (m in HARNESS and base(f.base) not in HARNESS[m]):
                continue
            cloexec(ctx, m, f)
            owner(ctx, m, f, sig, errfns)
    snapshot(ctx)
    ctx.need('acquisition_sites', 15)
    ctx.need('release_sites', 15)
    ctx.need('cloexec_sites', 8)
    ctx.need('inherit_sites', 1)


def snapshot(ctx):
    """The committed bootstrap copies of the library modules (lib/*.fu.cpp)."""
    from checks import c07
    sigs, progs, errfns = c07.snap_sigs()
    for m, P in progs.items():
        for f in P.fns.values():
            sig = sigs.get(f.base)
            if sig is None or sig['file'] != m + '.fu.cpp':
                continue
            cloexec(ctx, m + '.cpp', f)
            owner(ctx, m + '.cpp', f, sig, errfns)
            ctx.count('snapshot_functions')
    ctx.need('snapshot_functions', 9)


def owner(ctx, m, f, sig, errfns):
    if not any(i.callee in resflow.ACQ or i.callee in resflow.PAIR or i.callee in resflow.OBJ or i.callee in resflow.REL
               for i in f.calls()):
        return
    name = base(f.base)

    def leak(fn, tag, i, how):
        site = c.acq[tag]
        ctx.violation('%s %s %s leak' % (m, name, site.callee),
                      '%s: %s obtained by %s at %s is %s (%s) without having been released or handed over' %
                      (name, tag[1], site.callee, site.where(), how, i.where()))

    def dbl(fn, tag, i, how):
        site = c.acq[tag]
        ctx.violation('%s %s %s %s' % (m, name, site.callee, how),
                      '%s: %s obtained by %s at %s is %s at %s' % (name, tag[1], site.callee, site.where(), how, i.where()))
    c = resflow.ResClient(f, sig, errfns, leak, dbl)
    E = absint.Engine(f, c)
    E.run()
    ctx.fn('%s:%s' % (m, name))
    ctx.count('acquisition_sites', len(c.acq))
    ctx.count('release_sites', len(c.rel))
    ctx.count('returns', c.rets)
    ctx.count('abstract_steps', E.steps)
    for t, s in c.acq.items():
        ctx.sample('%s %s: %s' % (m, name, s.callee))


def bits(f, v, depth=0):
    """bits certainly set in v"""
    k = const(v)
    if k is not None:
        return k
    i = f.inst.get(v) if isinstance(v, int) else None
    if i is None or depth > 8:
        return 0
    if i.op == 'or':
        return bits(f, i.ops[0], depth + 1) | bits(f, i.ops[1], depth + 1)
    if i.op == 'select':
        return bits(f, i.ops[1], depth + 1) & bits(f, i.ops[2], depth + 1)
    if i.op == 'phi':
        r = -1
        for v2, _ in i.ops:
            r &= bits(f, v2, depth + 1)
        return r
    if i.op in ('zext', 'sext', 'trunc'):
        return bits(f, i.ops[0], depth + 1)
    return 0


def maybits(f, v, depth=0):
    """bits possibly set in v"""
    k = const(v)
    if k is not None:
        return k
    i = f.inst.get(v) if isinstance(v, int) else None
    if i is None or depth > 8:
        return -1
    if i.op in ('or', 'phi', 'select'):
        r = 0
        for v2 in (i.ops[1:] if i.op == 'select' else ir.opvals(i)):
            r |= maybits(f, v2, depth + 1)
        return r
    return -1


def cloexec(ctx, m, f):
    name = base(f.base)
    for i in f.calls():
        cal = i.callee
        if cal in FLAG:
            ctx.count('cloexec_sites')
            k, flag = FLAG[cal]
            if not bits(f, i.ops[k]) & flag:
                ctx.violation('%s %s %s inheritable' % (m, name, cal),
                              '%s: %s at %s creates a descriptor that children inherit (no close-on-exec flag)' % (name, cal, i.where()))
        elif cal in NOFLAG:
            ctx.violation('%s %s %s inheritable' % (m, name, cal), '%s: %s at %s cannot set close-on-exec' % (name, cal, i.where()))
        elif cal == 'popen' or cal == 'fopen':
            ctx.count('cloexec_sites')
            s = i.ops[1]
            txt = s.get('s') if isinstance(s, dict) else None
            if txt is None or 'e' not in txt.rstrip('\0'):
                ctx.violation('%s %s %s inheritable' % (m, name, cal),
                              '%s: %s at %s creates a stream whose descriptor children inherit (mode without e)' % (name, cal, i.where()))
        elif cal == 'posix_spawn_file_actions_addopen':
            ctx.count('inherit_sites')
            if maybits(f, i.ops[3]) & CLOEXEC:
                ctx.violation('%s %s addopen cloexec' % (m, name),
                              '%s: %s at %s opens a child standard stream close-on-exec, so the child starts without it' % (name, cal, i.where()))
