"""Abstract interpreter for small scalar functions: unsigned intervals x known bits for integers,
(object, offset) for pointers, a store of exact-offset facts per object.  Branches that the abstract
value does not decide are both followed with the condition refined; loops run abstractly while every
branch is decided and are widened to a fixpoint after that.  A caller covers all inputs by splitting
their range into cells and interpreting each cell."""
import re
from . import ir


def mask(w):
    return (1 << w) - 1


class I:
    """w-bit integer: lo <= x <= hi (unsigned), bits in z known 0, bits in o known 1"""
    __slots__ = ('w', 'lo', 'hi', 'z', 'o', 'sym')

    def __init__(self, w, lo=0, hi=None, z=0, o=0, sym=None):
        m = mask(w)
        hi = m if hi is None else hi
        self.w, self.sym = w, sym
        if lo == hi:
            z, o = m & ~lo, lo
        else:
            # leading bits shared by lo and hi
            n = (lo ^ hi).bit_length()
            keep = m & ~mask(n)
            o |= lo & keep
            z |= keep & ~lo
            lo = max(lo, o)
            hi = min(hi, m & ~z)
            if lo < hi:              # round the bounds to the nearest values with the known low bits
                t = 0
                while t < w and (z | o) >> t & 1:
                    t += 1
                if t:
                    low, k = o & mask(t), 1 << t
                    lo = lo + (low - lo) % k
                    hi = hi - (hi - low) % k
            if lo == hi:
                z, o = m & ~lo, lo
        self.lo, self.hi, self.z, self.o = lo, hi, z, o

    @property
    def empty(self):
        return self.lo > self.hi or bool(self.z & self.o)

    @property
    def const(self):
        return self.lo if self.lo == self.hi else None

    def key(self):
        return ('I', self.w, self.lo, self.hi, self.z, self.o)

    def __repr__(self):
        return '%d' % self.lo if self.lo == self.hi else '[%d..%d]' % (self.lo, self.hi)


def C(w, v):
    v &= mask(w)
    return I(w, v, v)


class P:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def key(self):
        return ('P', self.obj, self.off.key())

    def __repr__(self):
        return '%s+%r' % (self.obj, self.off)


def key(v):
    return v.key() if v is not None else None


def signed(w, v):
    return v - (1 << w) if v >> (w - 1) else v


def join(a, b):
    if a is None or b is None or type(a) is not type(b):
        return None
    if isinstance(a, Fill):
        return a if a.b == b.b else None
    if isinstance(a, P):
        return P(a.obj, join(a.off, b.off)) if a.obj == b.obj else None
    if a.w != b.w:
        return None
    return I(a.w, min(a.lo, b.lo), max(a.hi, b.hi), a.z & b.z, a.o & b.o)


def widen(a, b):
    if a is None or b is None or type(a) is not type(b):
        return None
    if isinstance(a, Fill):
        return a if a.b == b.b else None
    if isinstance(a, P):
        return P(a.obj, widen(a.off, b.off)) if a.obj == b.obj else None
    if a.w != b.w:
        return None
    return I(a.w, a.lo if b.lo >= a.lo else 0, a.hi if b.hi <= a.hi else mask(a.w),
             a.z & b.z & (-1 if b.lo >= a.lo and b.hi <= a.hi else lowmask(a.z & b.z | a.o & b.o)),
             a.o & b.o & lowmask(a.z & b.z | a.o & b.o))


def lowmask(m):
    t = 0
    while m >> t & 1:
        t += 1
    return mask(t)


def leq(a, b):
    if b is None:
        return True
    if a is None or type(a) is not type(b):
        return False
    if isinstance(a, Fill):
        return a.b == b.b
    if isinstance(a, P):
        return a.obj == b.obj and leq(a.off, b.off)
    return a.w == b.w and a.lo >= b.lo and a.hi <= b.hi and not (b.z & ~a.z) and not (b.o & ~a.o)


def add(a, b):
    w, m = a.w, mask(a.w)
    lo, hi = a.lo + b.lo, a.hi + b.hi
    t = min((lowmask(a.z | a.o)).bit_length(), (lowmask(b.z | b.o)).bit_length())
    low = (a.o + b.o) & mask(t)
    if hi <= m:
        pass
    elif lo > m:
        lo, hi = lo - m - 1, hi - m - 1
    else:
        lo, hi = 0, m
    return I(w, lo, hi, mask(t) & ~low, low)


def neg(a):
    if a.lo == 0:
        if a.hi == 0:
            return a
        lo, hi = 0, mask(a.w)
    else:
        lo, hi = (1 << a.w) - a.hi, (1 << a.w) - a.lo
    t = lowmask(a.z | a.o).bit_length()
    low = -a.o & mask(t)
    return I(a.w, lo, hi, mask(t) & ~low, low)


def binop(op, a, b):
    if not isinstance(a, I) or not isinstance(b, I) or a.w != b.w:
        return None
    w, m = a.w, mask(a.w)
    ca, cb = a.const, b.const
    if op == 'add':
        return add(a, b)
    if op == 'sub':
        if ca is None and cb is None and a.lo >= b.hi:
            r = add(a, neg(b))
            return I(w, max(r.lo, a.lo - b.hi), min(r.hi, a.hi - b.lo), r.z, r.o)
        return add(a, neg(b)) if not (b.lo == 0 and b.hi) else (
            I(w, a.lo - b.hi, a.hi - b.lo) if a.lo >= b.hi else I(w))
    if op == 'mul':
        if a.hi * b.hi <= m:
            tz = lambda x: (lowmask(x.z)).bit_length()
            return I(w, a.lo * b.lo, a.hi * b.hi, mask(min(w, tz(a) + tz(b))))
        if ca is not None and cb is not None:
            return C(w, ca * cb)
        return I(w)
    if op == 'and':
        return I(w, 0, min(a.hi, b.hi), a.z | b.z, a.o & b.o)
    if op == 'or':
        return I(w, max(a.lo, b.lo), mask(max(a.hi.bit_length(), b.hi.bit_length())), a.z & b.z, a.o | b.o)
    if op == 'xor':
        return I(w, 0, mask(max(a.hi.bit_length(), b.hi.bit_length())), a.z & b.z | a.o & b.o, a.z & b.o | a.o & b.z)
    if op in ('shl', 'lshr', 'ashr'):
        if cb is None:
            if op == 'lshr' and b.hi < w:
                return I(w, a.lo >> b.hi, a.hi >> b.lo)
            if op == 'shl' and b.hi < w and (a.hi << b.hi) <= m:
                return I(w, a.lo << b.lo, a.hi << b.hi, mask(b.lo))
            return I(w)
        if cb >= w:
            return I(w)
        if op == 'shl':
            z = (a.z << cb | mask(cb)) & m
            return I(w, a.lo << cb, a.hi << cb, z, a.o << cb & m) if (a.hi << cb) <= m else I(w, 0, m, z, a.o << cb & m)
        if op == 'lshr' or a.hi >> (w - 1) == 0:
            return I(w, a.lo >> cb, a.hi >> cb, (a.z >> cb) | (m & ~(m >> cb)), a.o >> cb)
        if a.lo >> (w - 1):
            top = m & ~(m >> cb)
            return I(w, a.lo >> cb | top, a.hi >> cb | top, a.z >> cb, a.o >> cb | top)
        return I(w)
    if op == 'udiv' and b.lo > 0:
        return I(w, a.lo // b.hi, a.hi // b.lo)
    if op == 'urem' and b.lo > 0:
        if ca is not None and cb is not None:
            return C(w, ca % cb)
        if cb is not None and cb & (cb - 1) == 0:
            return binop('and', a, C(w, cb - 1))
        return I(w, 0, min(a.hi, b.hi - 1))
    if op in ('sdiv', 'srem') and not a.hi >> (w - 1) and not b.hi >> (w - 1):
        return binop('u' + op[1:], a, b)
    return I(w)


def compare(pred, a, b):
    """True/False/None"""
    if isinstance(a, P) and isinstance(b, P) and a.obj == b.obj:
        return compare(pred, a.off, b.off)
    if isinstance(a, P) and isinstance(b, I) or isinstance(a, I) and isinstance(b, P):
        i = b if isinstance(b, I) else a
        if i.const == 0 and pred in ('eq', 'ne'):
            return pred == 'ne'
        return None
    if not isinstance(a, I) or not isinstance(b, I) or a.w != b.w:
        return None
    if pred in ('eq', 'ne'):
        if a.const is not None and a.const == b.const:
            return pred == 'eq'
        if a.hi < b.lo or b.hi < a.lo or a.o & b.z or a.z & b.o:
            return pred == 'ne'
        return None
    if pred[0] == 's':
        h = 1 << (a.w - 1)
        if (a.lo ^ a.hi) & h or (b.lo ^ b.hi) & h:
            return None
        lo = lambda x: signed(a.w, x)
        al, ah, bl, bh = lo(a.lo), lo(a.hi), lo(b.lo), lo(b.hi)
    else:
        al, ah, bl, bh = a.lo, a.hi, b.lo, b.hi
    p = pred[1:]
    if p == 'lt':
        return True if ah < bl else False if al >= bh else None
    if p == 'le':
        return True if ah <= bl else False if al > bh else None
    if p == 'gt':
        return True if al > bh else False if ah <= bl else None
    if p == 'ge':
        return True if al >= bh else False if ah < bl else None
    return None


def refine(pred, a, b):
    """a restricted by 'a pred b', or a"""
    if isinstance(a, P) and isinstance(b, P) and a.obj == b.obj:
        return P(a.obj, refine(pred, a.off, b.off))
    if not isinstance(a, I) or not isinstance(b, I) or a.w != b.w:
        return a
    lo, hi = a.lo, a.hi
    if pred[0] == 's':
        h = 1 << (a.w - 1)
        if (a.hi | b.hi) & h:
            # only the case of a known sign bit is refined
            if b.const == 0 or b.const == mask(a.w):
                nonneg = (pred == 'sge' and b.const == 0) or (pred == 'sgt' and b.const == mask(a.w))
                negat = (pred == 'slt' and b.const == 0) or (pred == 'sle' and b.const == mask(a.w))
                if nonneg:
                    hi = min(hi, h - 1)
                elif negat:
                    lo = max(lo, h)
                elif pred == 'sgt' and b.const == 0:
                    lo, hi = max(lo, 1), min(hi, h - 1)
            return I(a.w, lo, hi, a.z, a.o, a.sym)
        pred = 'u' + pred[1:]
    if pred == 'eq':
        lo, hi = max(lo, b.lo), min(hi, b.hi)
    elif pred == 'ne' and b.const is not None:
        if b.const == lo:
            lo += 1
        if b.const == hi:
            hi -= 1
    elif pred == 'ult':
        hi = min(hi, b.hi - 1)
    elif pred == 'ule':
        hi = min(hi, b.hi)
    elif pred == 'ugt':
        lo = max(lo, b.lo + 1)
    elif pred == 'uge':
        lo = max(lo, b.lo)
    if lo > hi:
        return _bad(a.w)
    return I(a.w, lo, hi, a.z, a.o, a.sym)


def _bad(w):
    x = I(w)
    x.lo, x.hi = 1, 0
    return x


def bad(v):
    return isinstance(v, I) and v.empty or isinstance(v, P) and v.off.empty


WIDTH = re.compile(r'i(\d+)$')


def width(ty):
    m = WIDTH.match(ty or '')
    return int(m.group(1)) if m else None


class State:
    __slots__ = ('env', 'mem', 'ev', 'visits', 'wide', 'size')

    def __init__(self):
        self.env, self.mem, self.ev, self.visits, self.wide, self.size = {}, {}, [], {}, {}, {}

    def copy(self):
        s = State()
        s.env, s.mem, s.ev = dict(self.env), {k: dict(v) for k, v in self.mem.items()}, list(self.ev)
        s.visits, s.wide, s.size = dict(self.visits), dict(self.wide), dict(self.size)
        return s


class Undecided(Exception):
    pass


class Interp:
    """client hooks: call(self, S, inst, args) -> value | Stop ; access(S, inst, ptr, nbytes, write)"""
    UNROLL = 48
    MAXPATHS = 400
    STEPS = 200000

    def __init__(self, fn, client):
        self.fn, self.c, self.results = fn, client, []
        self.npaths = self.steps = 0
        self.cur = None
        pos = {b: k for k, b in enumerate(fn.rpo())}
        self.heads = {e.dst for es in fn.succ for e in es if e.src in pos and pos[e.dst] <= pos[e.src]}

    def const(self, o):
        if 'c' in o:
            return C(o['w'], o['c'])
        if 'null' in o:
            return C(64, 0)
        if 'g' in o:
            return P(('g', o['g']), C(64, 0))
        if 'f' in o:
            return P(('f', o['f']), C(64, 0))
        if o.get('ce') == 'getelementptr' and 'off' in o:
            b = self.const(o['ops'][0])
            return P(b.obj, add(b.off, C(64, o['off']))) if isinstance(b, P) else None
        if o.get('ce') in ('bitcast', 'inttoptr', 'ptrtoint'):
            return self.const(o['ops'][0])
        return None

    def val(self, S, o):
        if isinstance(o, int):
            return S.env.get(o)
        return self.const(o) if isinstance(o, dict) else None

    def run(self, S):
        """-> list of ('ret', value, State) / ('stop', why, State)"""
        work = [(0, None, S)]
        while work:
            self.npaths += 1
            if self.npaths > self.MAXPATHS:
                raise Undecided('too many paths')
            b, prev, S = work.pop()
            while b is not None:
                b, prev, S = self.block(b, prev, S, work)
        return self.results

    def block(self, b, prev, S, work):
        L = self.fn.blocks[b]
        # phis
        new = {}
        for i in L:
            if i.op != 'phi':
                break
            for v, src in i.ops:
                if src == prev:
                    new[i.id] = self.val(S, v)
        S.env.update(new)
        n = S.visits[b] = S.visits.get(b, 0) + 1
        if n > self.UNROLL and b in self.heads:
            ids = sorted(new)
            snap = ({k: S.env[k] for k in ids}, {k: dict(v) for k, v in S.mem.items()})
            w = S.wide.get(b)
            if w is not None:
                if all(leq(snap[0].get(k), w[0].get(k)) for k in w[0]) and all(
                        all(leq(snap[1].get(o, {}).get(f), w[1][o][f]) for f in w[1][o]) for o in w[1]):
                    return None, None, None          # fixpoint
                e = {k: widen(w[0].get(k), snap[0].get(k)) for k in w[0]}
                m = {o: {f: widen(w[1][o][f], snap[1].get(o, {}).get(f)) for f in w[1][o] if f in snap[1].get(o, {})} for o in w[1]}
                if n > self.UNROLL + 12:
                    e = {k: None for k in e}
                    m = {}
            else:
                e, m = snap
            S.wide[b] = (e, m)
            S.env.update(e)
            S.mem = {o: dict(v) for o, v in m.items()}
            if n > self.UNROLL + 30:
                raise Undecided('no fixpoint')
        for i in L:
            if i.op == 'phi':
                continue
            self.steps += 1
            if self.steps > self.STEPS:
                raise Undecided('too many steps')
            self.cur = i
            if i.op in ir.TERM:
                return self.term(i, b, S, work)
            r = self.inst(i, S)
            if r is STOP:
                self.results.append(('stop', i, S))
                return None, None, None
            S.env[i.id] = r
        return None, None, None

    def term(self, i, b, S, work):
        if i.op == 'ret':
            self.results.append(('ret', self.val(S, i.ops[0]) if i.ops else None, S))
            return None, None, None
        if i.op == 'br':
            if 'to' in i.d:
                return i.d['to'], b, S
            t = self.truth(S, i.ops[0])
            if t is not None:
                return (i.d['t'] if t else i.d['f']), b, S
            S2 = S.copy()
            ok1, ok2 = self.assume(S, i.ops[0], True), self.assume(S2, i.ops[0], False)
            if ok1 and ok2:
                work.append((i.d['f'], b, S2))
                return i.d['t'], b, S
            if ok1:
                return i.d['t'], b, S
            if ok2:
                return i.d['f'], b, S2
            return None, None, None
        if i.op == 'switch':
            v = self.val(S, i.ops[0])
            for c, x in i.d['cases']:
                if v is None or compare('eq', v, C(v.w, c)) is not False:
                    if v is not None and v.const is not None:
                        return x, b, S
                    S2 = S.copy()
                    work.append((x, b, S2))
            return i.d['def'], b, S
        if i.op == 'invoke':
            r = self.call(i, S)
            if r is STOP:
                self.results.append(('stop', i, S))
                return None, None, None
            S.env[i.id] = r
            return i.d['to'], b, S
        self.results.append(('unreachable', i, S))
        return None, None, None

    def truth(self, S, o):
        v = self.val(S, o)
        return bool(v.const) if isinstance(v, I) and v.const is not None else None

    def assume(self, S, o, t):
        """refine S by o == t; False if impossible"""
        if not isinstance(o, int):
            return True
        i = self.fn.inst.get(o)
        S.env[o] = C(1, 1 if t else 0)
        if i is None:
            return True
        if i.op == 'icmp':
            p = i.pred if t else ir.NEG[i.pred]
            a, b = self.val(S, i.ops[0]), self.val(S, i.ops[1])
            ra, rb = refine(p, a, b), refine(ir.SWAP[p], b, a)
            if bad(ra) or bad(rb):
                return False
            self.put(S, i.ops[0], ra)
            self.put(S, i.ops[1], rb)
            return True
        if i.op == 'xor' and ir.const(i.ops[1]) in (1, -1):
            return self.assume(S, i.ops[0], not t)
        if i.op == 'and' and t or i.op == 'or' and not t:
            return self.assume(S, i.ops[0], t) and self.assume(S, i.ops[1], t)
        if i.op == 'select':
            c, x, y = i.ops
            if t and ir.const(y) == 0:
                return self.assume(S, c, True) and self.assume(S, x, True)
            if not t and ir.const(x) in (1, -1):
                return self.assume(S, c, False) and self.assume(S, y, False)
            return True
        if i.op == 'freeze':
            return self.assume(S, i.ops[0], t)
        return True

    def put(self, S, o, v):
        """record a refined value for o and for what it was computed from"""
        if not isinstance(o, int) or v is None:
            return
        S.env[o] = v
        i = self.fn.inst.get(o)
        if i is None or not isinstance(v, I):
            return
        if i.op == 'zext':
            x = self.val(S, i.ops[0])
            if isinstance(x, I) and v.hi <= mask(x.w):
                self.put(S, i.ops[0], I(x.w, max(x.lo, v.lo), min(x.hi, v.hi), x.z, x.o, x.sym))
        elif i.op == 'load':
            p = self.val(S, i.ops[0])
            if isinstance(p, P) and p.off.const is not None:
                m = S.mem.get(p.obj, {})
                k = (p.off.const, v.w // 8)
                if k in m:
                    m[k] = v

    def inst(self, i, S):
        op = i.op
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = self.val(S, i.ops[0]), self.val(S, i.ops[1])
            if op == 'sub' and isinstance(a, P) and isinstance(b, P) and a.obj == b.obj:
                return binop('sub', a.off, b.off)
            if op == 'add' and isinstance(a, P) and isinstance(b, I):
                return P(a.obj, add(a.off, b))
            if op == 'add' and isinstance(b, P) and isinstance(a, I):
                return P(b.obj, add(b.off, a))
            w = width(i.ty)
            if w is None:
                return None
            return binop(op, a if isinstance(a, I) else I(w), b if isinstance(b, I) else I(w)) or I(w)
        if op == 'icmp':
            t = compare(i.pred, self.val(S, i.ops[0]), self.val(S, i.ops[1]))
            return I(1) if t is None else C(1, int(t))
        if op == 'select':
            t = self.truth(S, i.ops[0])
            if t is not None:
                return self.val(S, i.ops[1 if t else 2])
            return self.sel(i, S)
        if op in ('zext', 'sext', 'trunc'):
            v, w = self.val(S, i.ops[0]), width(i.ty)
            if not isinstance(v, I):
                return I(w) if w else None
            if op == 'zext':
                return I(w, v.lo, v.hi, v.z | mask(w) & ~mask(v.w), v.o)
            if op == 'trunc':
                if v.hi <= mask(w):
                    return I(w, v.lo, v.hi, v.z & mask(w), v.o & mask(w))
                if v.hi >> w == v.lo >> w:
                    return I(w, v.lo & mask(w), v.hi & mask(w), v.z & mask(w), v.o & mask(w))
                return I(w, 0, mask(w), v.z & mask(w), v.o & mask(w))
            h = 1 << (v.w - 1)
            if v.hi < h:
                return I(w, v.lo, v.hi, v.z | mask(w) & ~mask(v.w), v.o)
            if v.lo >= h:
                e = mask(w) & ~mask(v.w)
                return I(w, v.lo | e, v.hi | e, v.z, v.o | e)
            return I(w)
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return self.val(S, i.ops[0])
        if op == 'getelementptr':
            b = self.val(S, i.ops[0])
            if isinstance(b, I) and 'off' in i.d and b.w == 64:
                return add(b, C(64, i.d['off']))
            if isinstance(b, I) and len(i.ops) == 2 and isinstance(self.val(S, i.ops[1]), I) and self.val(S, i.ops[1]).w == 64:
                return add(b, binop('mul', self.val(S, i.ops[1]), C(64, i.d['esz'])))
            if not isinstance(b, P):
                return None
            if 'off' in i.d:
                return P(b.obj, add(b.off, C(64, i.d['off'])))
            if len(i.ops) == 2:
                x = self.val(S, i.ops[1])
                if isinstance(x, I):
                    if x.w < 64:
                        x = I(64, x.lo, x.hi) if x.hi < 1 << (x.w - 1) else (C(64, signed(x.w, x.const)) if x.const is not None else I(64))
                    return P(b.obj, add(b.off, binop('mul', x, C(64, i.d['esz']))))
            return P(b.obj, I(64))
        if op == 'alloca':
            o = ('alloca', i.id)
            S.size.setdefault(o, None)
            return P(o, C(64, 0))
        if op == 'load':
            p = self.val(S, i.ops[0])
            w = width(i.ty) or (64 if i.ty == 'ptr' else None)
            n = (w + 7) // 8 if w else None
            if isinstance(p, P):
                self.c.access(self, S, i, p, n or 1, False)
                if p.off.const is not None and n:
                    v = S.mem.get(p.obj, {}).get((p.off.const, n))
                    if v is None:
                        v = self.bytes(S, p.obj, p.off.const, n)
                    if v is not None:
                        return v
            else:
                self.c.access(self, S, i, None, n or 1, False)
            return I(w) if w and i.ty != 'ptr' else None
        if op == 'store':
            v, p = self.val(S, i.ops[0]), self.val(S, i.ops[1])
            ty = i.ops[0].get('w') if isinstance(i.ops[0], dict) else None
            n = self.nbytes(i, S)
            if isinstance(p, P):
                self.c.access(self, S, i, p, n, True)
                self.kill(S, p, n)
                if p.off.const is not None:
                    S.mem.setdefault(p.obj, {})[(p.off.const, n)] = v if v is not None else I(8 * n)
            else:
                self.c.access(self, S, i, None, n, True)
            return None
        if op == 'atomicrmw':
            p, v = self.val(S, i.ops[0]), self.val(S, i.ops[1])
            S.ev.append(('rmw', p, i.d.get('rmw'), v, i))
            if isinstance(p, P):
                self.c.access(self, S, i, p, (width(i.ty) or 32) // 8, True)
                self.kill(S, p, (width(i.ty) or 32) // 8)
            return I(width(i.ty) or 32)
        if op in ('call', 'invoke'):
            return self.call(i, S)
        if op == 'extractvalue':
            a = S.env.get(('agg', i.ops[0])) if isinstance(i.ops[0], int) else None
            w = width(i.ty)
            return I(w) if w else None
        w = width(i.ty)
        return I(w) if w else None

    def sel(self, i, S):
        """select with an undecided condition: join of the two values, each refined by the condition"""
        out = []
        for t, k in ((True, 1), (False, 2)):
            S2 = State()
            S2.env, S2.mem = dict(S.env), {k: dict(v) for k, v in S.mem.items()}
            if self.assume(S2, i.ops[0], t):
                out.append(self.val(S2, i.ops[k]))
        r = out[0] if out else None
        for x in out[1:]:
            r = join(r, x)
        w = width(i.ty)
        return r if r is not None else I(w) if w else None

    def nbytes(self, i, S):
        v = i.ops[0]
        if isinstance(v, dict):
            return max(1, (v.get('w', 64) + 7) // 8)
        d = self.fn.inst.get(v)
        ty = d.ty if d is not None else next((a['ty'] for a in self.fn.args if a['id'] == v), 'ptr')
        w = width(ty)
        return (w + 7) // 8 if w else 8

    def kill(self, S, p, n):
        m = S.mem.get(p.obj)
        if not m:
            return
        lo, hi = p.off.lo, p.off.hi + n
        for k in [k for k in m if k[0] < hi and k[0] + k[1] > lo]:
            v = m.pop(k)
            if len(k) == 2 and isinstance(v, Fill) and p.off.const is not None:
                if k[0] < lo:
                    m[(k[0], lo - k[0])] = v
                if k[0] + k[1] > hi:
                    m[(hi, k[0] + k[1] - hi)] = v

    def bytes(self, S, obj, off, n):
        for (o, z), v in S.mem.get(obj, {}).items():
            if o <= off and off + n <= o + z:
                if isinstance(v, Fill):
                    b = v.b
                    return C(8 * n, int.from_bytes(bytes([b]) * n, 'little'))
                if isinstance(v, I):
                    return binop('lshr', v, C(v.w, 8 * (off - o))) if n * 8 == v.w else self.trunc(binop('lshr', v, C(v.w, 8 * (off - o))), 8 * n)
        return None

    def trunc(self, v, w):
        if v.hi <= mask(w):
            return I(w, v.lo, v.hi, v.z & mask(w), v.o & mask(w))
        return I(w, 0, mask(w), v.z & mask(w), v.o & mask(w))

    def call(self, i, S):
        args = [self.val(S, o) for o in i.ops]
        n = i.callee or ''
        w = width(i.ty)
        if re.match(r'llvm\.(dbg|lifetime|assume|experimental\.noalias)', n):
            return None
        if n.startswith('llvm.memset'):
            p, b, z = args[0], args[1], args[2]
            if isinstance(p, P) and isinstance(z, I):
                self.c.access(self, S, i, p, z, True)
                self.kill(S, p, z.hi)
                if p.off.const is not None and z.const is not None and isinstance(b, I) and b.const is not None:
                    S.mem.setdefault(p.obj, {})[(p.off.const, z.const)] = Fill(b.const)
            return None
        if re.match(r'llvm\.mem(cpy|move)', n):
            for p, wr in ((args[0], True), (args[1], False)):
                if isinstance(p, P) and isinstance(args[2], I):
                    self.c.access(self, S, i, p, args[2], wr)
            if isinstance(args[0], P) and isinstance(args[2], I):
                self.kill(S, args[0], args[2].hi)
            return None
        m = re.match(r'llvm\.(umax|umin|smax|smin|ctlz|cttz|ctpop|fshl|fshr|uadd\.with|umul\.with|expect)', n)
        if m:
            k = m.group(1)
            a = args[0] if isinstance(args[0], I) else I(w or 64)
            if k == 'expect':
                return args[0]
            if k in ('umax', 'umin', 'smax', 'smin') and isinstance(args[1], I):
                b = args[1]
                if k[0] == 'u' or not (a.hi | b.hi) >> (w - 1):
                    f = max if k[1:] == 'max' else min
                    return I(w, f(a.lo, b.lo), f(a.hi, b.hi))
                return I(w)
            if k == 'ctlz':
                return I(w, w - a.hi.bit_length(), w - a.lo.bit_length())
            return I(w) if w else None
        return self.c.call(self, S, i, args)


class Fill:
    """bytes all equal to b"""
    def __init__(self, b):
        self.b = b

    def key(self):
        return ('F', self.b)

    def __repr__(self):
        return 'fill(%d)' % self.b


STOP = object()
