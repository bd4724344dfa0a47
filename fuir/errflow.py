"""Failure-reporting dataflow: after a system call (or an Errno-returning helper) fails, does every
path out of the function report the failure?"""
import re
from . import ir, absint, cxxsig
from .ir import const
from .absint import State, Client, Engine, NZ, ALL

# callee -> signs of the return value when the call failed / succeeded.
M1 = ('-', '0+')        # -1 on failure, errno set
M1C = ('-', '+0')
NULL = ('0', '-+')      # null on failure
NZR = ('-+', '0')       # nonzero result on failure (errno value or -1)
SYS = {}
for n in ('open open64 openat creat read write pread pwrite readv writev fcntl fcntl64 dup dup2 dup3 '
          'epoll_create epoll_create1 epoll_wait epoll_pwait inotify_init inotify_init1 inotify_add_watch signalfd '
          'timerfd_create eventfd socket accept accept4 waitpid wait4 waitid poll ppoll select syscall readlink pclose '
          'send sendto sendmsg recv recvfrom recvmsg sendfile sigismember fork').split():
    SYS[n] = M1             # >= 0 on success
for n in ('close stat fstat lstat fstatat stat64 mkdir chmod fchmod unlink unlinkat rename renameat rmdir pipe pipe2 epoll_ctl bind '
          'listen connect kill ftruncate truncate fsync fdatasync symlink link chdir shutdown setsockopt '
          'sigaction sigprocmask utimes utimensat closedir fclose fflush munmap').split():
    SYS[n] = ('-', '0')     # exactly 0 on success
SYS['write'] = ('-', '+')
for n in 'fopen opendir popen getcwd realpath fdopen mmap_'.split():
    SYS[n] = NULL
for n in ('posix_spawn posix_spawnp posix_spawn_file_actions_init posix_spawn_file_actions_adddup2 '
          'posix_spawn_file_actions_addclose posix_spawn_file_actions_addopen posix_spawnattr_init '
          'posix_spawnattr_setflags posix_spawnattr_setsigdefault posix_spawnattr_setsigmask '
          'pthread_sigmask pthread_create').split():
    SYS[n] = NZR

SYS['readdir'] = ('0', '0-+')     # null: error or end, told apart by errno

STREAM = ('fread', 'fread_unlocked', 'ferror', 'ferror_unlocked')

SINKS = r'perror|.*\bfail_.*|_exit|exit|abort'


class ErrClient(Client):
    minus1_tags = ('sys',)

    def __init__(self, fn, sig, errfns, report, opts=None):
        self.fn, self.sig, self.errfns, self.report = fn, sig, errfns, report
        self.sites = {}
        self.rets = 0
        self.errargs = []
        self.reports_ret = bool(sig and cxxsig.errno_type(sig['ret']))
        if sig:
            off = len(fn.args) - len(sig['args'])       # sret
            for k, (t, n) in enumerate(sig['args']):
                if cxxsig.errno_ref(t) and k + off < len(fn.args):
                    self.errargs.append(fn.args[k + off]['id'])
        self.opts = opts or {}
        self.spurious = None
        self.int_ret = False        # nonzero int result reports failure (exit-code helpers)
        self.sret = None            # result object passed by pointer
        self.recover = ()           # queries whose positive answer means the failed step's product exists after all
        if sig and len(fn.args) > len(sig['args']):
            self.sret = fn.args[0]['id']

    def keep_mem(self, m):
        return m[0][0] == 'd' and m[0][1][0] == 'arg' and (m[0][1][1] in self.errargs or m[0][1][1] == self.sret)

    def kind(self, i):
        cal = i.callee or ''
        if cal in SYS:
            return ('sys',) + SYS[cal] + (cal,)
        m = re.match(r'_?[\w.]*', '')
        nm = fname(i)
        if nm in self.errfns:
            return ('efn',) + NZR + (nm,)
        return None

    def call(self, E, st, i):
        k = self.kind(i)
        if k is None and self.recover and ir.unhash(fname(i)) in self.recover:
            E.default_call(st, i)
            out = []
            for sg in ('-+', '0'):
                s = st.copy()
                if i.id in E.live_any:
                    E.tag(s, i.id, ('r', i.id), sg)
                if sg != '0':
                    for x in [x for x in s.ts if x[0] == 'fail']:
                        del s.ts[x]
                out.append(s)
            return out
        if (i.callee or '') in STREAM:
            # a stream read or error query: a short count means end of data or failure, told apart by ferror
            self.sites[i.id] = i
            E.default_call(st, i)
            out = []
            for sg in ('+', '0') if i.callee != 'ferror' else ('-+', '0'):
                s = st.copy()
                if i.id in E.live_any:
                    E.tag(s, i.id, ('r', i.id), sg)
                if i.callee == 'ferror':
                    s.ts.pop('$short', None)
                    if sg != '0':
                        s.ts[('fail', i.id)] = 1
                        s.ts['$failed'] = i.id
                elif sg == '0':
                    s.ts['$short'] = i.id
                out.append(s)
            return out
        if k is None:
            if re.fullmatch(SINKS, i.callee or '') or re.fullmatch(SINKS, fname(i)):
                for x in [x for x in st.ts if x[0] == 'fail']:
                    del st.ts[x]
            return None
        kind, fs, ss, nm = k
        self.sites[i.id] = i
        E.default_call(st, i)
        out = []
        for v in self.status_args(i) if kind == 'efn' else ():
            # ran, but the child's status is non-zero
            ad = E.addr(st, v)
            if ad[1] is not None:
                s = st.copy()
                if i.id in E.live_any:
                    E.tag(s, i.id, ('r', i.id), '0')
                t = ('r', 'status', i.id)
                s.sg[t] = frozenset('-+')
                s.mem[ad] = ('t', t)
                s.ts[('fail', i.id)] = 1
                s.ts['$failed'] = i.id
                out.append(s)
        for failed, sg in ((True, fs), (False, ss)):
            s = st.copy()
            if i.id in E.live_any:
                E.tag(s, i.id, ('sys' if fs == '-' else 'r', i.id), sg)
            if not failed and nm in [x[1] for x in s.ts if x[0] == 'rec']:
                s.ts['$healed'] = 1
            if failed:
                s.ts.pop('$healed', None)
                if not any(x[0] == 'fail' for x in s.ts):
                    s.ts[('fail', i.id)] = 1
                s.ts['$failed'] = i.id
            out.append(s)
        if kind == 'sys' and nm == 'write' and any(i.blk in self.fn.reach(e.dst) for e in self.fn.succ[i.blk]):
            # a write of no bytes: not an OS error (errno is stale), but the transfer stopped short
            s = st.copy()
            if i.id in E.live_any:
                E.tag(s, i.id, ('sys', i.id), '0')
            s.ts.pop('$healed', None)
            s.ts.pop('$failed', None)
            if not any(x[0] == 'fail' for x in s.ts):
                s.ts[('fail', i.id)] = 1
            out.append(s)
        return out

    sigs = None         # when set: callees with a status out-parameter are also forked into 'child failed'

    def status_args(self, i):
        sig = self.sigs and self.sigs.get(fname(i))
        if not sig:
            return []
        if len(sig['args']) > len(i.ops):
            return []
        off, out = 0, []
        for t, n in sig['args']:
            if off < len(i.ops) and n == 'status' and t.endswith('&'):
                out.append(i.ops[off])
            off += 1
        return out if off == len(i.ops) else []

    fork_kinds = ('sys', 'r', 'errno')

    def assumed(self, E, st, at):
        """recognising a specific errno is handling it"""
        if at[0] != 'eq':
            return
        for a, b in ((at[1], at[2]), (at[2], at[1])):
            k = const(b)
            av = E.av(st, a) or (E.av(st, ir.casts(self.fn, a)) if isinstance(a, int) else None)
            if k and k > 0 and av and av[0] == 't' and av[1][0] in ('errno', 'r'):
                site = av[1][-1]
                for x in [x for x in st.ts if x[0] == 'fail' and (x[1] == site or site is None)]:
                    del st.ts[x]
                    kk = self.kind(self.fn.inst[x[1]])
                    if kk:
                        st.ts[('rec', kk[3])] = x[1]

    def ret(self, E, st, i):
        self.rets += 1
        fails = [x[1] for x in st.ts if x[0] == 'fail']
        if '$short' in st.ts:
            fails.append(st.ts['$short'])
        if not fails:
            if st.ts.get('$healed') and self.spurious and self.definite(E, st, i):
                rv = E.av(st, i.ops[0])
                for x, site in st.ts.items():
                    if x[0] == 'rec' and rv and rv[0] == 't' and rv[1][-1] == site:
                        self.spurious(self.fn, self.fn.inst[site], i, E, st)
            return
        if self.ok(E, st, i):
            return
        for f in fails:
            self.report(self.fn, self.fn.inst[f], i, E, st)

    def definite(self, E, st, i):
        return self.reports_ret and i.ops and st.signs(E.av(st, i.ops[0])) <= NZ

    def ok(self, E, st, i):
        if self.int_ret and i.ops and st.signs(E.av(st, i.ops[0])) <= NZ:
            return True
        if self.sret is not None:
            for m, av in st.mem.items():
                if m[0] == ('d', ('arg', self.sret)) and st.signs(av) <= NZ:
                    return True
        if self.reports_ret and i.ops:
            if st.signs(E.av(st, i.ops[0])) <= NZ:
                return True
        for a in self.errargs:
            av = st.mem.get((('d', ('arg', a)), 0))
            if av is not None and st.signs(av) <= NZ:
                return True
        if not self.reports_ret and not self.errargs and i.ops and self.fn.d['ret'].startswith('i'):
            av = E.av(st, i.ops[0])
            if av is not None and (st.signs(av) <= frozenset('-') or av[0] == 'k' and self.fn.d['ret'] == 'i1'):
                return True
        return False


def fname(i):
    """Source name of a direct call's callee (declarations carry no debug info: use the mangling)."""
    if i.cbase:
        return i.cbase
    m = re.match(r'_ZL?(\d+)', i.callee or '')
    if m:
        n = int(m.group(1))
        return i.callee[m.end():m.end() + n]
    return i.callee or ''
