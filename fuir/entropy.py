"""How many bits of a random number, or of what seeds one, can reach a value: for every bit the set of source bits it
may depend on.  Loops whose counters are constants are followed round by round."""
import re
from . import ir, env
from .ir import const

NONE = frozenset()


class TooMany(Exception):
    pass


def width(ty):
    m = re.match(r'i(\d+)$', ty or '')
    return int(m.group(1)) if m else 64 if ty in ('ptr', 'double') else None


def known(v):
    return v is not None and all(b in (0, 1) for b in v)


def num(v):
    return sum(b << k for k, b in enumerate(v))


def lit(n, w):
    return [(n >> k) & 1 for k in range(w)]


def src(b):
    return NONE if b in (0, 1) else b


def union(bits):
    return frozenset().union(*(src(b) for b in bits)) if bits else NONE


def signed(n, w):
    return n - (1 << w) if n >> (w - 1) & 1 else n


CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
       'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}


class Eval:
    """runs one function on bit provenances; source(call) -> bits or None, memory(call, slot) -> {(slot, offset): bits}"""
    def __init__(self, f, source, fill=None, limit=40000):
        self.f, self.source, self.fill, self.limit = f, source, fill or (lambda i, n, o: None), limit
        self.fills = bool(fill)
        self.reached = NONE       # source bits handed to other functions, stored outside or returned
        self.returned = NONE
        self.stored = {}          # global -> source bits
        self.opaque = set()       # globals that received a value this does not understand
        self.steps = 0

    def val(self, E, o, w=None):
        if isinstance(o, int):
            return E.get(o)
        c = const(o)
        if isinstance(c, int):
            return lit(c & ((1 << (w or 64)) - 1), w or 64)
        return None

    def ptr(self, p):
        r, off = ir.ptr_base(self.f, p)
        if isinstance(r, int) and r in self.f.inst and self.f.inst[r].op == 'alloca':
            return ('a', r), off
        if isinstance(r, dict):
            return ('g', r.get('g') or r.get('name') or str(r)), off
        return None, None

    def op(self, E, i):
        w = width(i.ty)
        if w is None:
            return None
        def get(k):
            o = i.ops[k]
            return self.val(E, o, width(self.f.inst[o].ty) if isinstance(o, int) and o in self.f.inst else w)
        if i.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            a = get(0)
            if a is None:
                return None
            return a[:w] if len(a) >= w else a + [a[-1] if i.op == 'sext' else 0] * (w - len(a))
        if i.op == 'select':
            c, a, b = self.val(E, i.ops[0], 1), get(1), get(2)
            if known(c):
                return a if num(c) else b
            if a is None or b is None:
                return None
            c = union(c or [])
            return [x if x == y and x in (0, 1) else src(x) | src(y) | c for x, y in zip(a, b)]
        if i.op == 'icmp':
            o = [x for x in i.ops if isinstance(x, int) and x in self.f.inst]
            cw = width(self.f.inst[o[0]].ty) if o else 64
            a, b = (self.val(E, x, cw) for x in i.ops)
            if a is None or b is None:
                return None
            if known(a) and known(b):
                p, x, y = i.pred, num(a), num(b)
                if p[0] == 's':
                    x, y = signed(x, len(a)), signed(y, len(b))
                return [int(CMP[p if p in ('eq', 'ne') else p[1:]](x, y))]
            return [union(a) | union(b)]
        if i.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = get(0), get(1)
            if a is None or b is None:
                return None
            if known(a) and known(b):
                x, y = num(a), num(b)
                sx, sy = signed(x, w), signed(y, w)
                try:
                    r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                         'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: x >> y, 'ashr': lambda: sx >> y, 'udiv': lambda: x // y,
                         'urem': lambda: x % y, 'sdiv': lambda: abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1),
                         'srem': lambda: abs(sx) % abs(sy) * (-1 if sx < 0 else 1)}[i.op]()
                except ZeroDivisionError:
                    return None
                return lit(r & ((1 << w) - 1), w)
            if known(b):
                y = num(b)
                if i.op == 'udiv' and y and y & (y - 1) == 0:
                    return a[y.bit_length() - 1:] + [0] * (y.bit_length() - 1)
                if i.op == 'urem' and y and y & (y - 1) == 0:
                    return a[:y.bit_length() - 1] + [0] * (w - y.bit_length() + 1)
                if i.op in ('shl', 'lshr', 'ashr') and y < w:
                    if i.op == 'shl':
                        return [0] * y + a[:w - y]
                    return a[y:] + [a[-1] if i.op == 'ashr' else 0] * y
            if i.op == 'and':
                return [0 if 0 in (x, y) else y if x == 1 else x if y == 1 else src(x) | src(y) for x, y in zip(a, b)]
            if i.op == 'or':
                return [1 if 1 in (x, y) else y if x == 0 else x if y == 0 else src(x) | src(y) for x, y in zip(a, b)]
            if i.op == 'xor':
                return [x ^ y if x in (0, 1) and y in (0, 1) else src(x) | src(y) for x, y in zip(a, b)]
            if i.op in ('add', 'sub', 'mul'):
                out, acc = [], NONE
                for x, y in zip(a, b):
                    acc = acc | src(x) | src(y)
                    out.append(acc if acc else NONE)
                return out
            u = union(a) | union(b)
            return [u] * w
        return None

    def live(self):
        f = self.f
        use, dfn, phi = {}, {}, {}
        for b, blk in enumerate(f.blocks):
            u, d = set(), set()
            for i in blk:
                if i.op == 'phi':
                    for o, p in i.ops:
                        if isinstance(o, int):
                            phi.setdefault(p, set()).add(o)
                else:
                    u |= {o for o in ir.opvals(i) if isinstance(o, int) and o not in d}
                d.add(i.id)
            use[b], dfn[b] = u, d
        L = {b: set(use[b]) for b in use}
        ch = True
        while ch:
            ch = False
            for b in reversed(range(len(f.blocks))):
                out = set(phi.get(b, ()))
                for e in f.succ[b]:
                    out |= L[e.dst]
                n = use[b] | (out - dfn[b])
                if n - L[b]:
                    L[b] |= n
                    ch = True
        for b, blk in enumerate(f.blocks):     # phi operands are consumed on entry
            for i in blk:
                if i.op == 'phi':
                    L[b].add(i.id)
        return L

    def give(self, v):
        self.reached |= union(v or [])

    def run(self):
        f = self.f
        work, seen, L = [(0, None, {})], set(), self.live()
        while work:
            b, pred, E = work.pop()
            E = dict(E)
            new = {}
            for i in f.blocks[b]:
                if i.op != 'phi':
                    break
                o = next((o for o, p in i.ops if p == pred), None)
                new[i.id] = self.val(E, o, width(i.ty)) if o is not None else None
            E.update(new)
            E = {k: v for k, v in E.items() if not isinstance(k, int) or k in L[b]}
            key = (b, frozenset((k, tuple(v)) for k, v in E.items() if v is not None))
            if key in seen:
                continue
            seen.add(key)
            for i in f.blocks[b]:
                self.steps += 1
                if self.steps > self.limit:
                    raise TooMany
                if i.op == 'phi':
                    continue
                v = None
                if i.op == 'store':
                    s, off = self.ptr(i.ops[1])
                    o = i.ops[0]
                    w = width(f.inst[o].ty) if isinstance(o, int) and o in f.inst else 64
                    x = self.val(E, o, w)
                    if s is None:
                        self.give(x)
                    elif s[0] == 'g':
                        if x is None:
                            self.opaque.add(s[1])
                        else:
                            self.stored[s[1]] = self.stored.get(s[1], NONE) | union(x)
                    elif off is None:
                        E[s] = [union(E.get(s) or []) | union(x or [])]
                    else:
                        E[s, off] = x
                        E[s] = [union(E.get(s) or []) | union(x or [])]
                    continue
                if i.op == 'load':
                    s, off = self.ptr(i.ops[0])
                    w = width(i.ty)
                    if s and w:
                        v = E.get((s, off))
                        if v is not None and len(v) != w:
                            v = v[:w] if len(v) > w else [union(E.get(s) or [])] * w
                        if v is None and E.get(s) is not None and s[0] == 'a':
                            v = [union(E[s])] * w
                    u = union(E.get(i.ops[0]) or []) if isinstance(i.ops[0], int) else NONE
                    if u:                      # an element chosen by it
                        v = [u | src(x) for x in v or [NONE] * (w or 64)]
                elif i.op in ('call', 'invoke'):
                    v = self.source(i)
                    if v is None or self.fills:
                        for n, o in enumerate(i.ops):
                            self.give(self.val(E, o) if isinstance(o, int) else None)
                            s, off = self.ptr(o) if isinstance(o, (int, dict)) else (None, None)
                            if s and s[0] == 'a':
                                self.give(E.get(s))
                                m = self.fill(i, n, s)
                                if m:
                                    E.update(m)
                                    E[s] = [union([x for y in m.values() for x in y])]
                elif i.op == 'ret':
                    if i.ops and isinstance(i.ops[0], int):
                        self.returned |= union(E.get(i.ops[0]) or [])
                elif i.op == 'cmpxchg':
                    s, off = self.ptr(i.ops[0])
                    x = self.val(E, i.ops[2])
                    if s and s[0] == 'g':
                        if x is None:
                            self.opaque.add(s[1])
                        else:
                            self.stored[s[1]] = self.stored.get(s[1], NONE) | union(x)
                elif i.op not in ('br', 'switch', 'unreachable', 'alloca'):
                    v = self.op(E, i)
                    if v is None:              # whatever it computes, it depends on no more than this
                        u = union([x for o in i.ops if isinstance(o, int) for x in E.get(o) or []])
                        v = [u] * (width(i.ty) or 64) if u else None
                if v is None:
                    E.pop(i.id, None)
                else:
                    E[i.id] = v
            for e in f.succ[b]:
                if e.kind == 'unw':
                    continue
                c = self.val(E, e.cond, 1) if e.cond is not None and e.kind == 'br' else None
                if known(c) and bool(num(c)) != bool(e.val):
                    continue
                work.append((e.dst, b, E))
        return self


EXTERN = {'gettimeofday': (0, 8, 20), 'clock_gettime': (1, 8, 30), 'timespec_get': (0, 8, 30)}
SECONDS = {'time'}
BITS = {'getpid': 16, 'gettid': 16, 'clock': 20}


def bits_of(f, i):
    w = width(i.ty)
    n = i.callee or ''
    if not w or n.startswith('llvm.') and 'cycle' not in n:
        return None
    if n in EXTERN or n in SECONDS:
        return [NONE] * w
    k = BITS.get(n, w)
    return [frozenset([(i.id, b)]) if b < k else NONE for b in range(w)]


def filled(i, n, s):
    c = i.callee or ''
    if c.startswith('llvm.'):
        return {}
    if c in EXTERN:
        a, off, k = EXTERN[c]
        if n != a:
            return {}
        return {(s, 0): [NONE] * 64, (s, off): [frozenset([(i.id, b)]) if b < k else NONE for b in range(64)]}
    if c in SECONDS:
        return {(s, 0): [NONE] * 64}
    return {(s, 0): [frozenset([(i.id, n, b)]) for b in range(64)]}


MIN_NAME, MIN_SEED = 32, 16


def name_bits(ctx, f, rn, where, key):
    """the fresh name must tell enough temporaries apart: enough bits of the random number reach it"""
    ctx.rule('at least %d bits of the random number reach a fresh name' % MIN_NAME)
    ids = {i.id for i in rn}
    e = Eval(f, lambda i: [frozenset([(i.id, b)]) for b in range(64)] if i.id in ids else None)
    try:
        e.run()
    except TooMany:
        ctx.count('names_undecided')
        return
    n = len(e.reached | e.returned)
    ctx.count('name_random_bits', n)
    if n < MIN_NAME:
        ctx.violation(key, '%s puts at most %d bits of the random number into the name: builds running at once come to write the same temporary' % (where, n))


def seed_bits(ctx, P, gen, states, where, key):
    """two processes must not start from the same state"""
    ctx.rule('the generator starts from at least %d bits that differ from process to process (time below a second, ids, system randomness)' % MIN_SEED)
    for g in states:
        have, opaque = NONE, False
        for f in P.fns.values():
            if not f.blocks:
                continue
            if f is gen:
                opaque |= any(i.callee and not i.callee.startswith('llvm.') for i in f.calls())
                continue
            if not any(i.op in ('store', 'cmpxchg', 'atomicrmw') and g == gname(f, i) for i in f.insts()):
                continue
            e = Eval(f, lambda i, f=f: bits_of(f, i) if i.op in ('call', 'invoke') else None, filled)
            try:
                e.run()
            except TooMany:
                opaque = True
                continue
            have |= e.stored.get(g, NONE)
            opaque |= g in e.opaque
        ctx.count('seed_bits', len(have))
        if len(have) >= MIN_SEED:
            continue
        if opaque:
            ctx.count('seeds_undecided')
        else:
            ctx.violation(key, '%s: the generator starts from at most %d bits that tell processes apart: builds started together draw the same '
                          'names for their temporaries' % (where, len(have)))


def gname(f, i):
    r, _ = ir.ptr_base(f, i.ops[1 if i.op == 'store' else 0])
    return r.get('g') if isinstance(r, dict) else None
