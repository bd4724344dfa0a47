"""Path traces of a loop-collapsed control-flow graph over value-numbered terms.

Every path from entry to a return, to a trap or to a loop back edge is enumerated once, with each
loop entered in an arbitrary iteration (its phis and the memory it writes are opaque).  Values are
terms in a normal form: integer polynomials over opaque atoms for address and arithmetic, bit
provenance for masks and shifts.  A path carries the ordered list of its effects (loads, stores,
atomics with their ordering, calls) and the branch facts it assumed.  Two branch facts contradict
only if they are syntactically the same term with opposite polarity, or constant."""
import re
from .ir import NEG, SWAP

M64 = (1 << 64) - 1


# ---- terms: int | atom (tuple whose head is not 'p') | ('p', ((mono, coef), ...)) ----

def poly(t):
    if isinstance(t, int):
        return {(): t} if t else {}
    if t[0] == 'p':
        return dict(t[1])
    return {(t,): 1}


def unpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return 0
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return c
        if c == 1 and len(m) == 1:
            return m[0]
    return ('p', tuple(sorted(d.items(), key=repr)))


def sx(n, w=64):
    n &= (1 << w) - 1
    return n - (1 << w) if n >> (w - 1) else n


def add(a, b, k=1):
    d = poly(a)
    for m, c in poly(b).items():
        d[m] = sx(d.get(m, 0) + k * c)
    return unpoly(d)


def mul(a, b):
    d = {}
    for m, c in poly(a).items():
        for n, e in poly(b).items():
            mn = tuple(sorted(m + n, key=repr))
            d[mn] = sx(d.get(mn, 0) + c * e)
    return unpoly(d)


def sub(a, b):
    return add(a, b, -1)


PTR = {}      # term -> (alignment bits, address bits): known-zero low and high bits of a pointer term


def bits(t, n=64):
    """64 entries: 0 | 1 | (term, i)"""
    if isinstance(t, int):
        return [(t >> i) & 1 for i in range(n)]
    if t in PTR:
        lo, hi = PTR[t]
        return [(t, i) if lo <= i < hi else 0 for i in range(n)]
    h = t[0]
    if h in ('and', 'or', 'xor'):
        a, b = bits(t[1]), bits(t[2])
        out = []
        for i in range(n):
            x, y = a[i], b[i]
            if h == 'and':
                r = 0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 or x == y else (t, i)
            elif h == 'or':
                r = 1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 or x == y else (t, i)
            else:
                r = 0 if x == y else y if x == 0 else x if y == 0 else (t, i)
            out.append(r)
        return out
    if h == 'lshr':
        return bits(t[1])[t[2]:] + [0] * t[2]
    if h == 'zx':
        return bits(t[2])[:t[1]] + [0] * (64 - t[1])
    if h == 'tr':
        return bits(t[2])[:t[1]] + [0] * (64 - t[1])
    if h == 'p':
        ms = t[1]
        k = min((c & -c).bit_length() - 1 for _, c in ms)
        if k:
            inner = unpoly({m: c >> k for m, c in ms})
            return [0] * k + bits(inner)[:n - k]
        # sum of terms with disjoint bits
        acc = [0] * n
        ok = True
        for m, c in ms:
            if c < 0 or (len(m) != 1 and m != ()):
                ok = False
                break
            s = (c & -c).bit_length() - 1
            if m != () and c != 1 << s:
                ok = False
                break
            bb = bits(c) if m == () else [0] * s + bits(m[0])[:n - s]
            for i in range(n):
                if bb[i] != 0:
                    if acc[i] != 0:
                        ok = False
                        break
                    acc[i] = bb[i]
        if ok:
            return acc
    return [(t, i) for i in range(n)]


def bop(op, a, b):
    if isinstance(a, int) and not isinstance(b, int):
        a, b = b, a
    if isinstance(a, int) and isinstance(b, int):
        return sx({'and': a & b, 'or': a | b, 'xor': a ^ b}[op])
    if b == 0:
        return 0 if op == 'and' else a
    if b == -1 and op == 'and':
        return a
    if a == b:
        return 0 if op == 'xor' else a
    return (op, a, b)


class Ev:
    __slots__ = ('k', 'i', 'a', 'v', 'ord', 'x')

    def __init__(self, k, i, a=None, v=None, ord=None, x=None):
        self.k, self.i, self.a, self.v, self.ord, self.x = k, i, a, v, ord, x

    def __repr__(self):
        return '%s(%s, %s%s%s)' % (self.k, show(self.a), show(self.v), ', ' + self.ord if self.ord else '', ', ' + show(self.x) if self.x is not None else '')


def show(t, d=3):
    if isinstance(t, list):
        return '[' + ', '.join(show(x, d) for x in t) + ']'
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == 'p':
        return '(' + ' + '.join(('%d*' % c if c != 1 or not m else '') + '*'.join(show(x, d) for x in m) if m else str(c) for m, c in t[1]) + ')'
    if d == 0:
        return t[0] + '<..>'
    return '%s<%s>' % (t[0], ' '.join(show(x, d - 1) for x in t[1:]))


def subst(t, old, new, memo=None):
    """replace an atom (or whole term) and renormalise"""
    memo = {} if memo is None else memo
    if t == old:
        return new
    if not isinstance(t, tuple):
        return t
    if t in memo:
        return memo[t]
    h = t[0]
    S = lambda x: subst(x, old, new, memo)
    if h == 'p':
        r = 0
        for m, c in t[1]:
            q = c
            for x in m:
                q = mul(q, S(x))
            r = add(r, q)
    elif h in ('and', 'or', 'xor'):
        r = bop(h, S(t[1]), S(t[2]))
    elif h == 'lshr':
        a = S(t[1])
        r = (a & M64) >> t[2] if isinstance(a, int) else ('lshr', a, t[2])
    elif h in ('udiv', 'sdiv'):
        a, b = S(t[1]), S(t[2])
        r = a if b == 1 else a // b if isinstance(a, int) and isinstance(b, int) and b > 0 and a >= 0 else (h, a, b)
    elif h == 'cmp':
        r = cmp_(t[1], S(t[2]), S(t[3]))
    elif h == 'not':
        a = S(t[1])
        r = (a & 1) ^ 1 if isinstance(a, int) else a[1] if a[0] == 'not' else ('not', a)
    elif h == 'sel':
        c, a, b = S(t[1]), S(t[2]), S(t[3])
        r = (a if c & 1 else b) if isinstance(c, int) else a if a == b else ('sel', c, a, b)
    elif h in ('zx', 'sx', 'tr'):
        a = S(t[2])
        r = (h, t[1], a) if not isinstance(a, int) else a & ((1 << t[1]) - 1) if h == 'zx' else sx(a, t[1])
    elif h == 'gepx':
        r = ('gepx', tuple(S(x) for x in t[1])) + t[2:]
    elif h in ('ld', 'aload', 'rmw', 'cas', 'casok', 'casval', 'call', 'phi', 'ssa', 'alloca', 'arg', 'g'):
        r = t
    else:
        r = (h,) + tuple(S(x) if isinstance(x, tuple) else x for x in t[1:])
    memo[t] = r
    return r


def cmp_(pred, a, b):
    return Tracer.cmp(None, pred, a, b)


class Trace:
    """end: 'ret' | 'back' | 'trap' | 'exc'; ev: events; facts: set of (term-atom, bool)"""
    def __init__(self):
        self.ev, self.facts, self.env, self.mem, self.end, self.blk, self.n = [], {}, {}, {}, None, [], {}
        self.val = None

    def fork(self):
        t = Trace()
        t.ev, t.facts, t.env, t.mem, t.blk, t.n = list(self.ev), dict(self.facts), dict(self.env), dict(self.mem), list(self.blk), dict(self.n)
        return t


BINS = {'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'}


class Tracer:
    def __init__(self, fn, argnames=None, benign=None, limit=4000):
        self.fn, self.limit, self.out = fn, limit, []
        self.benign = re.compile(benign) if benign else None      # calls that do not touch analysed memory
        self.argn = {a['id']: (argnames[k] if argnames and k < len(argnames) else a['nm'] or 'a%d' % k) for k, a in enumerate(fn.args)}
        self.loops()

    def loops(self):
        fn = self.fn
        self.heads = {}
        seen, onst = set(), []
        color = {}

        def dfs(b):
            st = [(b, iter(fn.succ[b]))]
            color[b] = 1
            while st:
                x, it = st[-1]
                for e in it:
                    if color.get(e.dst) == 1:
                        self.heads.setdefault(e.dst, set()).add(x)
                    elif e.dst not in color:
                        color[e.dst] = 1
                        st.append((e.dst, iter(fn.succ[e.dst])))
                        break
                else:
                    color[x] = 2
                    st.pop()
        dfs(0)
        self.body = {}
        for h, ls in self.heads.items():
            body, w = {h}, list(ls)
            while w:
                b = w.pop()
                if b in body:
                    continue
                body.add(b)
                w += [e.src for e in fn.pred[b]]
            self.body[h] = body

    def const(self, o):
        if 'c' in o:
            return o['c']
        if 'null' in o or 'zero' in o or 'undef' in o:
            return 0
        if 'g' in o:
            return ('g', o['g'])
        if 'f' in o:
            return ('g', o['f'])
        if 'ce' in o:
            a = [self.const(x) if isinstance(x, dict) else ('?',) for x in o['ops']]
            if o['ce'] == 'getelementptr' and 'off' in o:
                return add(a[0], o['off'])
            if o['ce'] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return a[0]
            return ('ce', repr(o))
        return ('const', repr(o))

    def v(self, t, o):
        if isinstance(o, dict):
            return self.const(o)
        if o in t.env:
            return t.env[o]
        if o in self.argn:
            return ('arg', self.argn[o])
        return ('ssa', o)

    def run(self):
        t = Trace()
        self.stack = [(t, 0, None)]
        while self.stack:
            t, b, pred = self.stack.pop()
            if len(self.out) > self.limit:
                raise OverflowError('too many paths in ' + self.fn.name)
            self.block(t, b, pred)
        return self.out

    def finish(self, t, end, val=None):
        t.end, t.val = end, val
        self.out.append(t)

    def fresh(self, t, kind, i):
        return (kind, i.id)

    def block(self, t, b, pred):
        fn = self.fn
        if b in self.heads:
            if b in t.blk:
                if pred in self.body[b]:
                    t.env['back'] = {i.id: self.v(t, next(o for o, p in i.ops if p == pred)) for i in fn.blocks[b] if i.op == 'phi'}
                    t.n['to'] = b
                    return self.finish(t, 'back')
            # enter in an arbitrary iteration
            for x in self.body[b]:
                for i in fn.blocks[x]:
                    if i.op == 'store' or i.op in ('call', 'invoke', 'atomicrmw', 'cmpxchg'):
                        self.havoc(t, i, b)
        t.blk.append(b)
        new = {}
        for i in fn.blocks[b]:
            if i.op != 'phi':
                break
            init = self.v(t, next(o for o, p in i.ops if p == pred))
            if b in self.heads:
                new[i.id] = ('phi', i.id)
                t.n[('init', i.id)] = init
            else:
                new[i.id] = init
        t.env.update(new)
        for i in fn.blocks[b]:
            if i.op == 'phi':
                continue
            if i.op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke'):
                return self.term(t, b, i)
            if i.noret:
                t.ev.append(Ev('call', i, i.cdem or i.callee, [self.v(t, o) for o in i.ops]))
                return self.finish(t, 'trap')
            self.inst(t, i)

    def havoc(self, t, i, head):
        if i.op == 'store':
            a = self.v(t, i.ops[1])
            self.clobber(t, a)
        elif i.op in ('call', 'invoke'):
            n = i.callee or ''
            if n.startswith('llvm.') and not n.startswith(('llvm.mem',)):
                return
            if self.benign and self.benign.search(i.cdem or n):
                return
            for o in i.ops:
                self.escape(t, self.v(t, o))
            self.clobber(t, None)
        else:
            self.clobber(t, self.v(t, i.ops[0]))

    @staticmethod
    def base(a):
        """(alloca-or-None, exact?)"""
        for m, c in poly(a).items():
            for x in m:
                if x[0] == 'alloca':
                    return x
        return None

    def clobber(self, t, a):
        """forget memory that a store to a may overwrite (a None: an opaque call)"""
        ba = self.base(a) if a is not None else None
        for k in list(t.mem):
            bk = self.base(k)
            if a is None:
                if bk is None or bk in t.n.get('esc', ()):
                    del t.mem[k]
                continue
            if bk is not None and ba is not None and bk != ba:
                continue
            if (bk is None) != (ba is None) and (bk or ba) not in t.n.get('esc', ()):
                # a local that never escaped cannot be reached through another pointer
                if ba is None and isinstance(a, tuple) and a[0] in ('ssa', 'phi') and False:
                    pass
                continue
            d = sub(a, k)
            if isinstance(d, int) and abs(d) >= 8 and ba == bk:
                continue
            if isinstance(d, int) and d != 0 and abs(d) >= 4 and ba == bk:
                del t.mem[k]
                continue
            del t.mem[k]

    def escape(self, t, v):
        if isinstance(v, tuple):
            ba = self.base(v)
            if ba:
                t.n['esc'] = tuple(set(t.n.get('esc', ())) | {ba})

    def w(self, ty):
        try:
            return int(ty[1:]) if ty and ty[0] == 'i' else 64
        except ValueError:
            return 64

    def inst(self, t, i):
        op, E = i.op, t.env
        if op == 'alloca':
            E[i.id] = ('alloca', i.id)
            if i.ops and not isinstance(i.ops[0], dict):
                t.n[('count', i.id)] = self.v(t, i.ops[0])
        elif op == 'getelementptr':
            a = self.v(t, i.ops[0])
            if 'off' in i.d:
                E[i.id] = add(a, i.d['off'])
            elif len(i.ops) == 2:
                E[i.id] = add(a, mul(self.v(t, i.ops[1]), i.d['esz']))
            else:
                r = a
                known = True
                x = self.v(t, i.ops[1])
                r = add(r, mul(x, i.d['esz']))
                E[i.id] = add(r, ('gepidx', i.id) if not known else ('gepx', tuple(self.v(t, o) for o in i.ops[2:]), i.d.get('src')))
        elif op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            E[i.id] = self.v(t, i.ops[0])
        elif op in ('zext', 'sext', 'trunc'):
            a = self.v(t, i.ops[0])
            if isinstance(a, int):
                E[i.id] = a if op != 'trunc' else sx(a, self.w(i.ty))
                if op == 'zext':
                    E[i.id] = a & ((1 << self.srcw(i)) - 1)
            elif op == 'trunc':
                E[i.id] = a[2] if a[0] in ('zx', 'sx') and a[1] == self.w(i.ty) else ('tr', self.w(i.ty), a)
            else:
                E[i.id] = a if a[0] in ('cmp', 'not') else ('zx' if op == 'zext' else 'sx', self.srcw(i), a)
        elif op in BINS:
            a, b = self.v(t, i.ops[0]), self.v(t, i.ops[1])
            if op == 'add':
                r = add(a, b)
            elif op == 'sub':
                r = sub(a, b)
            elif op == 'mul':
                r = mul(a, b)
            elif op == 'shl' and isinstance(b, int):
                r = mul(a, 1 << b)
            elif op == 'lshr' and isinstance(b, int):
                r = (a & M64) >> b if isinstance(a, int) else a if not b else ('lshr', a, b)
            elif op in ('and', 'or', 'xor'):
                r = bop(op, a, b)
                if op == 'xor' and b == -1 and isinstance(a, tuple) and a[0] in ('cmp', 'not'):
                    r = a[1] if a[0] == 'not' else ('not', a)
                if op == 'xor' and i.ty == 'i1' and b in (1, -1, True) and isinstance(a, tuple):
                    r = a[1] if a[0] == 'not' else ('not', a)
            else:
                r = (op, a, b)
            E[i.id] = r
        elif op == 'icmp':
            E[i.id] = self.cmp(i.pred, self.v(t, i.ops[0]), self.v(t, i.ops[1]))
        elif op == 'select':
            c, a, b = (self.v(t, o) for o in i.ops)
            k = self.known(t, c)
            E[i.id] = a if a == b or k is True else b if k is False else ('sel', c, a, b)
        elif op == 'load':
            a = self.v(t, i.ops[0])
            t.n[('at', i.id)] = a
            if i.ord:
                E[i.id] = self.fresh(t, 'aload', i)
                t.ev.append(Ev('aload', i, a, E[i.id], i.ord))
            else:
                if a in t.mem:
                    E[i.id] = t.mem[a]
                else:
                    E[i.id] = self.fresh(t, 'ld', i)
                    t.mem[a] = E[i.id]
                if self.base(a) is None or self.base(a) in t.n.get('esc', ()):
                    t.ev.append(Ev('load', i, a, E[i.id]))
        elif op == 'store':
            a, v = self.v(t, i.ops[1]), self.v(t, i.ops[0])
            self.clobber(t, a)
            self.escape(t, v)
            if i.ord:
                t.ev.append(Ev('astore', i, a, v, i.ord))
            else:
                t.mem[a] = v
                t.ev.append(Ev('store', i, a, v))
        elif op == 'atomicrmw':
            a, v = self.v(t, i.ops[0]), self.v(t, i.ops[1])
            E[i.id] = self.fresh(t, 'rmw', i)
            self.clobber(t, a)
            t.ev.append(Ev('rmw', i, a, v if i.d['rmw'] != 'sub' else sub(0, v), i.ord, E[i.id]))
        elif op == 'cmpxchg':
            a, exp, new = (self.v(t, o) for o in i.ops[:3])
            E[i.id] = self.fresh(t, 'cas', i)
            self.clobber(t, a)
            t.ev.append(Ev('cas', i, a, new, i.ord, exp))
        elif op == 'fence':
            t.ev.append(Ev('fence', i, None, None, i.ord))
        elif op == 'extractvalue':
            a = self.v(t, i.ops[0])
            if isinstance(a, tuple) and a[0] == 'cas':
                E[i.id] = ('casok', a[1]) if i.d['idx'] == [1] else ('casval', a[1])
            else:
                E[i.id] = ('xv', a, tuple(i.d['idx']))
        elif op in ('call', 'invoke'):
            self.call(t, i)
        else:
            E[i.id] = ('ssa', i.id)

    def srcw(self, i):
        o = i.ops[0]
        if isinstance(o, int) and o in self.fn.inst:
            return self.w(self.fn.inst[o].ty)
        for a in self.fn.args:
            if a['id'] == o:
                return self.w(a['ty'])
        return o.get('w', 64) if isinstance(o, dict) else 64

    def call(self, t, i):
        args = [self.v(t, o) for o in i.ops]
        n = i.callee or ''
        if n.startswith('llvm.'):
            if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stacksave', 'llvm.stackrestore')):
                if n.startswith('llvm.stacksave'):
                    t.env[i.id] = ('ssa', i.id)
                return
            if n.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                a = args[0]
                ba = self.base(a)
                for k in list(t.mem):
                    if self.base(k) == ba:
                        if n.startswith('llvm.memset') and isinstance(args[2], int) and isinstance(sub(k, a), int) and not 0 <= sub(k, a) < args[2]:
                            continue
                        del t.mem[k]
                t.ev.append(Ev(n.split('.')[1], i, a, args[1], None, args[2]))
                if n.startswith('llvm.memset') and args[1] == 0 and isinstance(args[2], int):
                    for o in range(0, min(args[2], 4096), 4):
                        t.mem[add(a, o)] = 0
                return
            if n.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
                t.env[i.id] = (n.split('.')[1],) + tuple(sorted(args, key=repr))
                return
        name = i.cdem or i.callee or None
        if name and self.benign and self.benign.search(name):
            t.env[i.id] = self.fresh(t, 'call', i)
            t.ev.append(Ev('call', i, name, args, None, t.env[i.id]))
            return
        for a in args:
            self.escape(t, a)
        self.clobber(t, None)
        name = i.cdem or i.callee or None
        r = self.fresh(t, 'call', i)
        t.env[i.id] = r
        if name is None:
            t.ev.append(Ev('icall', i, self.v(t, i.d.get('cv')) if i.d.get('cv') is not None else None, args, None, r))
        else:
            t.ev.append(Ev('call', i, name, args, None, r))

    def cmp(self, pred, a, b):
        if isinstance(a, int) and isinstance(b, int):
            ua, ub = a & M64, b & M64
            return 1 if {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
                         'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub}[pred] else 0
        if isinstance(a, int):
            a, b, pred = b, a, SWAP[pred]
        if a == b:
            return 1 if pred in ('eq', 'sle', 'sge', 'ule', 'uge') else 0
        if isinstance(b, int) and isinstance(a, tuple) and a[0] in ('cmp', 'not', 'casok') and pred in ('eq', 'ne') and b in (0, 1):
            pos = (pred == 'ne') == (b == 0)
            return a if pos else Tracer.neg(a)
        if pred in ('eq', 'ne') and b == 0 and isinstance(a, tuple) and a[0] in ('alloca', 'g'):
            return 1 if pred == 'ne' else 0
        if pred in ('eq', 'ne') and not isinstance(b, int) and repr(b) < repr(a):
            a, b = b, a
        if pred == 'ult' and b == 1:
            pred, b = 'eq', 0
        if pred == 'ugt' and b == 0:
            pred = 'ne'
        if pred in ('ne', 'sge', 'sgt', 'uge', 'ugt'):
            return ('not', ('cmp', NEG[pred], a, b))
        return ('cmp', pred, a, b)

    @staticmethod
    def neg(a):
        if isinstance(a, int):
            return 1 - (a & 1)
        return a[1] if a[0] == 'not' else ('not', a)

    def known(self, t, c):
        if isinstance(c, int):
            return bool(c & 1)
        p = True
        if c[0] == 'not':
            c, p = c[1], False
        k = t.facts.get(c)
        return None if k is None else k == p

    def assume(self, t, c, val):
        k = self.known(t, c)
        if k is not None:
            return k == val
        if c[0] == 'not':
            c, val = c[1], not val
        t.facts[c] = val
        if c[0] in ('and', 'or') and val == (c[0] == 'and'):
            return self.assume(t, c[1], val) and self.assume(t, c[2], val)
        if c[0] == 'sel' and isinstance(c[3], int) and c[3] == 0 and val:
            return self.assume(t, c[1], True) and self.assume(t, c[2], True)
        if c[0] == 'sel' and isinstance(c[2], int) and c[2] & 1 and not val:
            return self.assume(t, c[1], False) and self.assume(t, c[3], False)
        return True

    def term(self, t, b, i):
        op = i.op
        if op == 'ret':
            return self.finish(t, 'ret', self.v(t, i.ops[0]) if i.ops else None)
        if op == 'unreachable':
            return self.finish(t, 'trap')
        if op == 'resume':
            return self.finish(t, 'exc')
        if op == 'invoke':
            self.call(t, i)
            if i.noret:
                return self.finish(t, 'trap')
            self.stack.append((t, i.d['to'], b))
            return
        if op == 'br':
            if 'to' in i.d:
                self.stack.append((t, i.d['to'], b))
                return
            c = self.v(t, i.ops[0])
            for val, dst in ((False, i.d['f']), (True, i.d['t'])):
                u = t.fork()
                if self.assume(u, c, val):
                    self.stack.append((u, dst, b))
            return
        if op == 'switch':
            x = self.v(t, i.ops[0])
            for c, dst in i.d['cases']:
                u = t.fork()
                if self.assume(u, self.cmp('eq', x, c), True):
                    self.stack.append((u, dst, b))
            u = t.fork()
            if all(self.assume(u, self.cmp('eq', x, c), False) for c, _ in i.d['cases']):
                self.stack.append((u, i.d['def'], b))
