"""Ownership typestate of OS resources (descriptors, streams, directory handles, spawn attribute
objects, malloc'ed C strings): every acquisition is, on every path to a return, released exactly once
or handed over (returned / stored where the caller can see it), and never used after its release."""
import re
from . import ir, errflow
from .ir import const

# callee -> (class, release function)
ACQ = {n: ('fd', 'close') for n in ('open open64 openat creat socket accept accept4 epoll_create epoll_create1 '
       'inotify_init inotify_init1 signalfd timerfd_create eventfd dup memfd_create').split()}
ACQ.update({'popen': ('pipe stream', 'pclose'), 'fopen': ('stream', 'fclose'), 'fdopen': ('stream', 'fclose'),
            'opendir': ('directory handle', 'closedir'), 'getcwd': ('malloc buffer', 'free'),
            'realpath': ('malloc buffer', 'free')})
PAIR = {'pipe': 'fd', 'pipe2': 'fd'}
OBJ = {'posix_spawn_file_actions_init': 'posix_spawn_file_actions_destroy',
       'posix_spawnattr_init': 'posix_spawnattr_destroy'}
REL = {'close': 'fd', 'pclose': 'pipe stream', 'fclose': 'stream', 'closedir': 'directory handle', 'free': 'malloc buffer'}
USE = set('read write pread pwrite fread fwrite readdir epoll_ctl epoll_wait listen bind fgets ferror fileno'.split())


class ResClient(errflow.ErrClient):
    minus1_tags = ('sys', 'fd')
    fork_kinds = ()

    def __init__(self, fn, sig, errfns, leak, dbl, opts=None):
        super().__init__(fn, sig, errfns, lambda *a: None)
        self.leak, self.dbl = leak, dbl
        self.acq, self.rel = {}, {}

    def assumed(self, E, st, at):
        pass

    def keep_tags(self, st):
        return [t for t in st.sg if t[0] == 'fd']

    def keep_mem(self, m):
        return False

    def acquire(self, st, tag, i):
        if st.ts.get(tag) == 'open':
            self.leak(self.fn, tag, i, 'acquired again')
        st.ts[tag] = 'open'
        self.acq[tag] = i

    def call(self, E, st, i):
        cal = i.callee or ''
        if cal in ACQ and not (cal in ('signalfd',) and const(i.ops[0]) not in (-1, (1 << 32) - 1)):
            if cal in ('getcwd', 'realpath') and const(i.ops[0 if cal == 'getcwd' else 1]) != 0:
                return super().call(E, st, i)
            cls, rel = ACQ[cal]
            tag = ('fd', cls, i.id)
            E.default_call(st, i)
            bad = st.copy()
            E.tag(bad, i.id, ('sys', i.id), '-' if cls == 'fd' else '0')
            bad.ts['$failed'] = i.id
            E.tag(st, i.id, tag, '+' if cls == 'fd' else '-+')
            self.acquire(st, tag, i)
            return [st, bad]
        if cal in PAIR:
            E.default_call(st, i)
            bad = st.copy()
            E.tag(bad, i.id, ('sys', i.id), '-')
            bad.ts['$failed'] = i.id
            E.tag(st, i.id, ('sys', i.id), '0')
            root, off = E.addr(st, i.ops[0])
            for k in (0, 1):
                tag = ('fd', 'fd', i.id, k)
                self.acquire(st, tag, i)
                st.sg[tag] = frozenset('+')
                if off is not None:
                    E.write(st, (root, off + 4 * k), ('t', tag))
                if root[0] != 'al':
                    st.ts[tag] = 'esc'
            return [st, bad]
        if cal in OBJ or cal in OBJ.values():
            root, off = E.addr(st, i.ops[0])
            cls = cal.rsplit('_', 1)[0]
            tag = ('fd', cls, root)
            if cal in OBJ:
                out = super().call(E, st, i)
                for s in out:
                    if '0' in s.signs(E.av(s, i.id)):
                        self.acquire(s, tag, i)
                return out
            self.release(E, st, tag, i)
            return None
        if cal in REL:
            a = E.av(st, i.ops[0])
            self.rel[i.id] = i
            if a is not None and a[0] == 't' and a[1][0] == 'fd':
                self.release(E, st, a[1], i)
            return super().call(E, st, i)
        if cal in USE:
            for v in i.ops[:4]:
                a = E.av(st, v) if isinstance(v, int) else None
                if a is not None and a[0] == 't' and a[1][0] == 'fd' and st.ts.get(a[1]) == 'closed':
                    self.dbl(self.fn, a[1], i, 'used after release')
        elif cal and not cal.startswith('llvm.'):
            # by-reference locals handed to code outside the analysed unit are out of our hands
            for v in i.ops:
                if not isinstance(v, int):
                    continue
                a = E.av(st, v)
                if a is not None and a[0] == 'p' and a[1][0] == 'al':
                    for m, x in st.mem.items():
                        if m[0] == a[1] and x[0] == 't' and x[1][0] == 'fd' and st.ts.get(x[1]) == 'open' and not self.pure(cal):
                            st.ts[x[1]] = 'esc'
        return super().call(E, st, i)

    def pure(self, cal):
        return cal.startswith('posix_spawn') or cal in errflow.SYS

    def release(self, E, st, tag, i):
        s = st.ts.get(tag)
        if s == 'closed':
            self.dbl(self.fn, tag, i, 'released twice')
        if s is not None:
            st.ts[tag] = 'closed'

    def store(self, E, st, i, addr, av):
        if av is not None and av[0] == 't' and av[1][0] == 'fd' and addr[0][0] != 'al':
            if st.ts.get(av[1]) == 'open':
                st.ts[av[1]] = 'esc'

    def ret(self, E, st, i):
        self.rets += 1
        rv = E.av(st, i.ops[0]) if i.ops else None
        handed = set()
        if i.ops:
            for r in self.ret_roots(i.ops[0]):
                handed |= {a[1] for m, a in st.mem.items() if m[0] == r and a[0] == 't'}
            for v in self.ret_vals(i.ops[0]):
                a = E.av(st, v)
                if a is not None and a[0] == 't':
                    handed.add(a[1])
        for t, s in st.ts.items():
            if t[0] == 'fd' and s == 'open':
                if t in handed or rv == ('t', t):
                    continue
                self.leak(self.fn, t, i, 'still open at return')

    def ret_vals(self, v):
        """SSA values that are part of an aggregate return value"""
        out, w = set(), [v]
        while w:
            x = w.pop()
            j = self.fn.inst.get(x) if isinstance(x, int) else None
            if j is None or x in out:
                continue
            out.add(x)
            if j.op in ('insertvalue', 'zext', 'shl', 'or', 'trunc', 'bitcast'):
                w += ir.opvals(j)
        return out

    def ret_roots(self, v):
        """locals an aggregate return value is loaded from"""
        out, w, seen = [], [v], set()
        while w:
            x = w.pop()
            if not isinstance(x, int) or x in seen:
                continue
            seen.add(x)
            j = self.fn.inst.get(x)
            if j is None:
                continue
            if j.op == 'load':
                r, _ = ir.ptr_base(self.fn, j.ops[0])
                if isinstance(r, int) and self.fn.inst.get(r) is not None and self.fn.inst[r].op == 'alloca':
                    out.append(('al', r))
            elif j.op in ('insertvalue', 'phi', 'zext', 'shl', 'or', 'trunc', 'bitcast'):
                w += ir.opvals(j)
        return out
