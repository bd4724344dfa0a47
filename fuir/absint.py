"""Disjunctive abstract interpretation over irdump functions.

Domain: constants, sign sets (-,0,+) attached to symbolic tags (so that every copy of a value is
refined together), addresses of locals / arguments, and client typestate.  Paths are kept apart
while their abstract states differ (states with equal content merge); when a block has more than
CAP states the least useful facts (lazy branch correlations) are dropped, then everything not
owned by the client.  No solver is involved: feasibility is decided by sign/constant facts only.
"""
import re
from . import ir, env
from .ir import const, atoms, edge_atoms, ptr_base, casts

ALL = frozenset('-0+')
NZ = frozenset('-+')


def csign(k):
    return frozenset('-' if k < 0 else '0' if k == 0 else '+')


class State:
    """env: ssa id -> AVal ; mem: (root, off) -> AVal ; sg: tag -> sign set ; ts: client dict.
    AVal: ('k', n) constant | ('t', tag) tagged symbol | ('p', root, off) address."""
    __slots__ = ('env', 'mem', 'sg', 'ts')

    def __init__(self, env=None, mem=None, sg=None, ts=None):
        self.env, self.mem, self.sg, self.ts = env or {}, mem or {}, sg or {}, ts or {}

    def copy(self):
        return State(dict(self.env), dict(self.mem), dict(self.sg), dict(self.ts))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()),
                frozenset(self.sg.items()), frozenset(self.ts.items()))

    def subst(self, tag, k):
        """the value named by tag is now known to be k"""
        for d in (self.env, self.mem):
            for x, a in list(d.items()):
                if a == ('t', tag):
                    d[x] = ('k', k)
        if tag[0] == 'arg':
            self.env[tag[1]] = ('k', k)
        self.sg.pop(tag, None)

    def signs(self, av):
        if av is None:
            return ALL
        if av[0] == 'k':
            return csign(av[1])
        if av[0] == 't':
            return self.sg.get(av[1], ALL)
        if av[0] == 'p':
            return NZ
        return ALL


def possible(pred, sa, sb):
    """Can `a pred b` hold given sign sets?  (signed/eq predicates against any signs)"""
    for x in sa:
        for y in sb:
            if pred == 'eq' and x == y:
                return True
            if pred == 'ne' and not (x == y == '0'):
                return True
            o = {'-': -1, '0': 0, '+': 1}
            d = o[x] - o[y]
            if pred in ('slt', 'sle') and (d < 0 or (d == 0 and (x != '0' or pred == 'sle'))):
                return True
            if pred in ('sgt', 'sge') and (d > 0 or (d == 0 and (x != '0' or pred == 'sge'))):
                return True
    return pred not in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge')


class Client:
    """Override what a rule needs.  Every hook may mutate the state; call() may return a list of
    successor states (forks)."""
    errno_rx = r'__errno_location|__error'
    minus1_tags = ()          # tag kinds whose only negative value is -1

    def call(self, E, st, i):
        return None

    def ret(self, E, st, i):
        pass

    def exc(self, E, st, i):
        pass

    def store(self, E, st, i, addr, av):
        pass

    def edge(self, E, st, e):
        return True

    def assumed(self, E, st, atom):
        """a branch (or a forked comparison) established this atomic fact"""

    fork_kinds = ()           # tag kinds whose comparisons are forked when stored into a variable

    def keep_tags(self, st):
        """tags that must survive even if no SSA value refers to them"""
        return ()

    def lazy(self):
        return True

    def keep_mem(self, m):
        return False

    def coarsen(self, st, hard):
        pass


class Engine:
    CAP = 600
    LAZY = 40

    def __init__(self, fn, client, entry=None):
        self.fn, self.c = fn, client
        self.live = liveness(fn)
        self.steps = 0
        self.capped = 0
        self.entry = entry or State()
        self.widen = {}

    # ---- evaluation
    def av(self, st, v):
        k = const(v)
        if k is not None:
            return ('k', k)
        if isinstance(v, dict):
            r, o = ptr_base(self.fn, v)
            if isinstance(r, dict) and ('g' in r or 'f' in r):
                return ('p', ('g', r.get('g') or r.get('f')), o)
            return None
        if v in st.env:
            return st.env[v]
        i = self.fn.inst.get(v)
        if i is None:
            return ('t', ('arg', v))
        if i.op == 'alloca':
            return ('p', ('al', v), 0)
        return None

    def addr(self, st, v):
        """Abstract address (root, off|None) of pointer operand."""
        r, o = ptr_base(self.fn, v)
        if isinstance(r, int):
            a = self.av(st, r)
            if a is not None and a[0] == 'p':
                return (a[1], None if o is None or a[2] is None else a[2] + o)
            if a is not None and a[0] == 't':
                return (('d', a[1]), o)
            return (('v', r), o)
        if isinstance(r, dict) and 'g' in r:
            return (('g', r['g']), o)
        return (('?',), o)

    def refine(self, st, v, pred, k):
        """Assume v pred k (k constant).  False if impossible."""
        v0 = v
        a = self.av(st, v)
        if a is None:
            v = casts(self.fn, v)
            a = self.av(st, v) if v != v0 else None
        if a is None:
            return True
        if a[0] == 'k':
            return cmpk(pred, a[1], k)
        if a[0] == 't':
            s = st.sg.get(a[1], ALL)
            m1 = a[1][0] in self.c.minus1_tags
            ns = frozenset(x for x in s if sign_may(x, pred, k, m1))
            if not ns:
                return False
            if ns != s:
                st.sg[a[1]] = ns
            if pred == 'eq' and a[1][0] in ('arg', 'mem', 'ssa') and k != 0:
                st.subst(a[1], k)
            return True
        if a[0] == 'p':
            if k == 0:
                return pred not in ('eq',)
        return True

    def assume(self, st, atom):
        if not self.assume1(st, atom):
            return False
        self.c.assumed(self, st, atom)
        return True

    def assume1(self, st, atom):
        p = atom[0]
        if p == 'false':
            return False
        if p == 'val':
            v, t = atom[1], atom[2]
            a = self.av(st, v)
            if a is not None and a[0] == 'k':
                return (a[1] != 0) == t
            if a is not None and a[0] == 't':
                return self.refine(st, v, 'ne' if t else 'eq', 0)
            if self.c.lazy():
                st.env[v] = ('k', 1 if t else 0)
            return True
        _, a, b, _i = atom
        ka, kb = const(a), const(b)
        if kb is None and isinstance(b, int):
            x = self.av(st, b)
            if x and x[0] == 'k':
                kb = x[1]
        if ka is None and isinstance(a, int):
            x = self.av(st, a)
            if x and x[0] == 'k':
                ka = x[1]
        if ka is not None and kb is not None:
            return cmpk(p, ka, kb)
        if kb is not None:
            if self.av(st, a) is None and self.c.lazy() and kb == 0 and isinstance(a, int) and self.av(st, casts(self.fn, a)) is None:
                st.env[a] = ('t', ('ssa', a))
                st.sg.pop(('ssa', a), None)
            return self.refine(st, a, p, kb)
        if ka is not None:
            return self.refine(st, b, ir.SWAP[p], ka)
        xa, xb = self.av(st, a), self.av(st, b)
        if xa is not None and xa == xb:
            return p in ('eq', 'sle', 'sge', 'ule', 'uge')
        if xa is not None and xb is not None and p in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge'):
            if not possible(p, st.signs(xa), st.signs(xb)):
                return False
        return True

    def tag(self, st, v, tag, signs=ALL):
        st.env[v] = ('t', tag)
        st.sg[tag] = frozenset(signs)

    # ---- transfer
    def run(self):
        fn = self.fn
        if not fn.blocks:
            return self
        work = [(0, None, self.entry.copy())]
        seen = [dict() for _ in fn.blocks]
        while work:
            b, e, st = work.pop()
            st = self.enter(b, e, st)
            n = len(seen[b])
            if n > self.LAZY:
                self.capped += 1
                self.coarsen(st, n > self.CAP)
                if n > 10 * self.CAP:
                    raise env.Broken('state explosion in %s block %d' % (fn.dem, b))
            k = st.key()
            if k in seen[b]:
                continue
            seen[b][k] = 1
            self.steps += 1
            for e2, s2 in self.block(b, st):
                work.append((e2.dst, e2, s2))
        return self

    def coarsen(self, st, hard):
        """Forget branch correlations first; when hard, everything but tags of tracked calls and
        the constants merged by phis."""
        lazy = ('ssa', 'mem', 'arg', 'w')
        for v, a in list(st.env.items()):
            if a[0] == 't' and a[1][0] in lazy:
                del st.env[v]
            elif a[0] == 'k' and v in self.fn.inst and self.fn.inst[v].op not in ('phi', 'load', 'select') \
                    and not self.reused(v):
                del st.env[v]
        for m, a in list(st.mem.items()):
            if a[0] == 't' and a[1][0] in lazy:
                del st.mem[m]
            elif hard and a[0] == 'k' and m[0][0] != 'al' and not self.c.keep_mem(m):
                del st.mem[m]
        for t in [t for t in st.sg if t[0] in lazy]:
            del st.sg[t]
        self.c.coarsen(st, hard)

    def reused(self, v):
        """a condition tested more than once: its truth correlates branches"""
        return sum(u.op in ('br', 'select') for u in self.fn.users.get(v, ())) > 1

    def enter(self, b, e, st):
        fn = self.fn
        st2 = st.copy()
        if e is not None:
            for i in fn.blocks[b]:
                if i.op != 'phi':
                    break
                for v, p in i.ops:
                    if p == e.src:
                        a = self.av(st, v)
                        if a is None:
                            st2.env.pop(i.id, None)
                        else:
                            st2.env[i.id] = a
                        break
        live = self.live[b]
        st2.env = {v: a for v, a in st2.env.items() if v in live}
        used = set(a[1] for a in st2.env.values() if a[0] == 't')
        for m, a in list(st2.mem.items()):
            if a[0] == 't' and a[1][0] == 'mem' and a[1] not in st2.sg and a[1] not in used:
                del st2.mem[m]
        used |= set(a[1] for a in st2.mem.values() if a[0] == 't')
        used |= set(self.c.keep_tags(st2))
        st2.sg = {t: s for t, s in st2.sg.items() if t in used or t[0] == 'arg'}
        return st2

    def block(self, b, st):
        fn = self.fn
        states = [st]
        L = fn.blocks[b]
        for i in L[:-1]:
            if i.op == 'phi':
                continue
            nxt = []
            for s in states:
                nxt += self.step(s, i)
            states = nxt
            if not states:
                return []
        t = L[-1]
        out = []
        for s in states:
            if t.op == 'ret':
                self.c.ret(self, s, t)
            elif t.op == 'resume':
                self.c.exc(self, s, t)
            elif t.op == 'unreachable':
                pass
            else:
                ss = self.step(s, t) if t.op == 'invoke' else [s]
                for s1 in ss:
                    for e in fn.succ[b]:
                        s2 = s1.copy()
                        ok = True
                        if e.kind == 'unw':
                            s2.env.pop(t.id, None)
                            if not self.unwinds(t):
                                continue
                        if e.kind == 'br' and isinstance(e.cond, int):
                            a = s2.env.get(e.cond)
                            if a is not None and a[0] == 'k' and bool(a[1]) != e.val:
                                continue
                        for at in edge_atoms(fn, e):
                            if not self.assume(s2, at):
                                ok = False
                                break
                        if ok and e.kind == 'br' and isinstance(e.cond, int) and self.c.lazy():
                            s2.env[e.cond] = ('k', 1 if e.val else 0)
                        if ok and self.c.edge(self, s2, e) is not False:
                            out.append((e, s2))
        return out

    def unwinds(self, t):
        """C library functions do not throw (cancellation aside)"""
        return not re.fullmatch(r'[a-z][a-z_0-9]*', t.callee or '!')

    def step(self, st, i):
        op = i.op
        if op in ('call', 'invoke'):
            if i.noret:
                return []
            cal = i.callee or ''
            r = self.c.call(self, st, i)
            if r is not None:
                return r
            self.default_call(st, i)
            return [st]
        if op == 'store':
            v, p = i.ops
            av = self.av(st, v)
            ad = self.addr(st, p)
            self.c.store(self, st, i, ad, av)
            self.write(st, ad, av)
            return [st]
        if op == 'load':
            ad = self.addr(st, i.ops[0])
            r = i.ops[0]
            if ad[0] == ('errno',):
                tag = ('errno', i.id, st.ts.get('$failed'))
                st.env[i.id] = ('t', tag)
                st.sg[tag] = frozenset('+' if st.ts.get('$failed') else '0+')
                return [st]
            a = st.mem.get(ad) if ad[1] is not None else None
            if a is None and self.c.lazy() and ad[1] is not None and i.ty.startswith('i') and ad[0] != ('?',):
                a = ('t', ('mem', ad, i.id))
                st.sg.pop(a[1], None)
                st.mem[ad] = a
            if a is not None:
                st.env[i.id] = a
            else:
                st.env.pop(i.id, None)
            return [st]
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            a = self.av(st, i.ops[0])
            if a is not None:
                if op == 'trunc' and i.ty in ('i1', 'i8') and a[0] == 't' and not self.boolish(i.ops[0]):
                    st.env.pop(i.id, None)
                elif op == 'zext' and a[0] == 'k' and a[1] == -1 and self.is_bool(i.ops[0]):
                    st.env[i.id] = ('k', 1)
                else:
                    st.env[i.id] = a
            else:
                st.env.pop(i.id, None)
            return [st]
        if op == 'getelementptr':
            ad = self.addr(st, i.id)
            if ad[0][0] in ('al', 'g', 'd', 'errno', 'sret'):
                st.env[i.id] = ('p', ad[0], ad[1])
            elif ad[0][0] == 'arg':
                st.env[i.id] = ('p', ad[0], ad[1])
            else:
                st.env.pop(i.id, None)
            return [st]
        if op == 'icmp':
            ts = []
            for truth in (True, False):
                s = st.copy()
                if self.assume1(s, (i.pred if truth else ir.NEG[i.pred], i.ops[0], i.ops[1], i)):
                    ts.append(truth)
            if len(ts) == 2 and self.forks(st, i):
                out = []
                for truth in ts:
                    s = st.copy()
                    self.assume(s, (i.pred if truth else ir.NEG[i.pred], i.ops[0], i.ops[1], i))
                    s.env[i.id] = ('k', 1 if truth else 0)
                    out.append(s)
                return out
            if len(ts) == 1:
                st.env[i.id] = ('k', 1 if ts[0] else 0)
            elif not ts:
                return []
            else:
                st.env.pop(i.id, None)
            return [st]
        if op == 'select':
            c, a, b = i.ops
            out = []
            for truth, v in ((True, a), (False, b)):
                s = st.copy()
                ok = all(self.assume(s, at) for at in atoms(self.fn, c, truth))
                if not ok:
                    continue
                if isinstance(c, int) and c in self.live_any:
                    s.env[c] = ('k', 1 if truth else 0)
                x = self.av(s, v)
                if x is None:
                    s.env.pop(i.id, None)
                else:
                    s.env[i.id] = x
                out.append(s)
            return out
        if op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr'):
            a, b = self.av(st, i.ops[0]), self.av(st, i.ops[1])
            r = None
            if a and b and a[0] == 'k' and b[0] == 'k':
                x, y = a[1], b[1]
                try:
                    r = {'and': x & y, 'or': x | y, 'xor': x ^ y, 'add': x + y, 'sub': x - y, 'mul': x * y,
                         'shl': x << (y & 63) if y >= 0 else None, 'lshr': (x >> (y & 63)) if x >= 0 else None,
                         'ashr': x >> (y & 63)}[op]
                except Exception:
                    r = None
            elif i.ty == 'i1' and op == 'xor' and a and a[0] == 'k':
                r = None
            elif i.ty == 'i1' and op in ('and', 'or'):
                for x in (a, b):
                    if x and x[0] == 'k' and op == 'and' and x[1] == 0:
                        r = 0
                    if x and x[0] == 'k' and op == 'or' and x[1] != 0:
                        r = 1
            if r is not None:
                if i.ty == 'i1':
                    r = r & 1
                ks = self.widen.setdefault(i.id, set())
                ks.add(r)
                if len(ks) > 4 and i.ty != 'i1':        # loop-varying constant: keep its sign only
                    self.tag(st, i.id, ('w', i.id), csign(r))
                else:
                    st.env[i.id] = ('k', r)
            elif op == 'add' and a and b and i.nsw and False:
                pass
            elif op == 'or' and (st.signs(a) <= NZ or st.signs(b) <= NZ) and (a or b) and i.ty != 'i1':
                # x | nonzero is nonzero
                self.tag(st, i.id, ('or', i.id), NZ)
            else:
                st.env.pop(i.id, None)
            return [st]
        if op == 'alloca':
            return [st]
        if op in ('atomicrmw', 'cmpxchg'):
            st.env.pop(i.id, None)
            return [st]
        st.env.pop(i.id, None)
        return [st]

    def forks(self, st, i):
        if not self.c.fork_kinds:
            return False
        if all(u.op in ('br', 'select') for u in self.fn.users.get(i.id, ())):
            return False
        for v in i.ops:
            a = self.av(st, v) or (self.av(st, casts(self.fn, v)) if isinstance(v, int) else None)
            if a is not None and a[0] == 't' and a[1][0] in self.c.fork_kinds:
                return True
        return False

    @property
    def live_any(self):
        if not hasattr(self, '_la'):
            self._la = set(self.fn.users)
        return self._la

    def is_bool(self, v):
        return ir.is_i1(self.fn, v)

    def boolish(self, v):
        i = self.fn.inst.get(v)
        return i is not None and i.op in ('zext', 'sext', 'load', 'phi')

    def write(self, st, ad, av):
        root, off = ad
        if off is None:
            for k in [k for k in st.mem if k[0] == root]:
                del st.mem[k]
            return
        if av is None:
            st.mem.pop(ad, None)
        else:
            st.mem[ad] = av

    def clobber(self, st, ad):
        root, off = ad
        for k in [k for k in st.mem if k[0] == root]:
            del st.mem[k]

    def default_call(self, st, i):
        import re
        cal = i.callee or ''
        if re.fullmatch(self.c.errno_rx, cal):
            st.env[i.id] = ('p', ('errno',), 0)
            return
        st.env.pop(i.id, None)
        if cal.startswith('llvm.lifetime') or cal.startswith('llvm.dbg'):
            return
        if cal.startswith('llvm.memset') and const(i.ops[1]) == 0 and const(i.ops[2]) is not None:
            root, off = self.addr(st, i.ops[0])
            n = const(i.ops[2])
            if off is not None and n <= 64:
                for o in range(0, n, 4):
                    st.mem[(root, off + o)] = ('k', 0)
                return
        if cal.startswith('llvm.memcpy') or cal.startswith('llvm.memmove'):
            d, s = self.addr(st, i.ops[0]), self.addr(st, i.ops[1])
            n = const(i.ops[2])
            if n is not None and n <= 256 and d[1] is not None:
                for k in [k for k in st.mem if k[0] == d[0] and k[1] is not None and d[1] <= k[1] < d[1] + n]:
                    del st.mem[k]
                for k, a in list(st.mem.items()):
                    if s[1] is not None and k[0] == s[0] and k[1] is not None and s[1] <= k[1] < s[1] + n:
                        ad = (d[0], k[1] - s[1] + d[1])
                        self.c.store(self, st, i, ad, a)
                        st.mem[ad] = a
                return
            self.clobber(st, d)
            return
        for v in i.ops:
            if isinstance(v, int):
                a = self.av(st, v)
                if a is not None and a[0] == 'p':
                    if a[2] and i.op in ('call', 'invoke'):
                        # a member handed to a function: the members before it are out of reach
                        for k in [k for k in st.mem if k[0] == a[1] and (k[1] is None or k[1] >= a[2])]:
                            del st.mem[k]
                        continue
                    self.clobber(st, (a[1], a[2]))
                elif a is not None and a[0] == 't':
                    self.clobber(st, (('d', a[1]), 0))
                else:
                    self.clobber(st, (('v', v), 0))


def cmpk(p, a, b):
    if p in ('ult', 'ule', 'ugt', 'uge'):
        a &= (1 << 64) - 1
        b &= (1 << 64) - 1
    return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
            'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}.get(p, True)


def sign_may(x, pred, k, m1=False):
    """May a value of sign x satisfy `value pred k`?"""
    if x == '0':
        return cmpk(pred, 0, k)
    if x == '-' and m1:
        return cmpk(pred, -1, k)
    if x == '+':
        lo, hi = 1, 10 ** 18
    else:
        lo, hi = -10 ** 18, -1
    if pred == 'eq':
        return lo <= k <= hi
    if pred == 'ne':
        return True
    if pred == 'slt':
        return lo < k
    if pred == 'sle':
        return lo <= k
    if pred == 'sgt':
        return hi > k
    if pred == 'sge':
        return hi >= k
    if pred in ('ult', 'ule'):
        if x == '-':
            return k < 0
        return (lo < k if pred == 'ult' else lo <= k) or k < 0
    return True


def liveness(fn):
    n = len(fn.blocks)
    use, defs = [set() for _ in range(n)], [set() for _ in range(n)]
    phiuse = [set() for _ in range(n)]      # used at end of pred
    for b, L in enumerate(fn.blocks):
        for i in L:
            if i.op == 'phi':
                for v, p in i.ops:
                    if isinstance(v, int):
                        phiuse[p].add(v)
            else:
                vs = list(i.ops)
                if isinstance(i.d.get('cv'), int):
                    vs.append(i.d['cv'])
                for v in vs:
                    if isinstance(v, int) and v not in defs[b]:
                        use[b].add(v)
            defs[b].add(i.id)
    # a branch on a value re-evaluates its operand tree: keep operands of conditions live
    livein = [set() for _ in range(n)]
    changed = True
    order = fn.rpo()[::-1]
    # extend uses: if v is used, its cmp/cast operands matter too
    dep = {}
    for i in fn.insts():
        if i.op in ('icmp', 'and', 'or', 'xor', 'zext', 'sext', 'trunc', 'select', 'freeze', 'bitcast', 'getelementptr', 'inttoptr', 'ptrtoint'):
            dep[i.id] = [v for v in i.ops if isinstance(v, int)]

    def close(s):
        out, w = set(s), list(s)
        while w:
            v = w.pop()
            for d in dep.get(v, ()):
                if d not in out:
                    out.add(d)
                    w.append(d)
        return out
    for b, L in enumerate(fn.blocks):
        for i in L:
            if i.op in ('br', 'switch', 'select') and i.ops and isinstance(i.ops[0], int):
                here = set()
                for v in close({i.ops[0]}):
                    d = fn.inst.get(v)
                    if d is None or d.blk != b:
                        here.add(v)
                use[b] |= here
    while changed:
        changed = False
        for b in order:
            out = set(phiuse[b])
            for e in fn.succ[b]:
                out |= livein[e.dst]
            new = use[b] | (out - defs[b])
            # closing over deps may bring in values defined in this block: harmless
            if new - livein[b]:
                livein[b] |= new
                changed = True
    for b, L in enumerate(fn.blocks):       # phi results are visible on entry of their own block
        livein[b] = livein[b] | {i.id for i in L if i.op == 'phi'}
    return livein
