"""Numbers to text, printing, panics (include/fu/decstr.cpp, print.cpp, never.cpp).

Digit loops are judged by one invariant, D(n) ~ S = D(n0), where D(n) is the decimal text of the loop variable and S the
text built so far: a step that goes on must prepend '0' + n % 10 and divide by ten and may be taken only for n >= 10; a last
step must prepend '0' + n and may be taken only for n <= 9.  Stop conditions are compared as sets of n.  A floating point
text must fit its buffer for every double and be copied in full, which is evaluated for every length there is."""
import re
from . import env, ir, trace
from .trace import poly, sub, show, M64

SRC = env.VERIF + '/harness/rt_text.cpp'
KEEP = r'fu::vec|fu::view|operator""|fu::strlit|fu::str|std::'
ROOT = r'^(fu::(u64|i64|f64|bool)dec|fu::println|fu::fail|text_\w+)'
BENIGN = r'^(snprintf|sprintf|fwrite|fputc|putc|putchar|fputs|puts|printf|strlen|__cxa_allocate_exception)$'


class Tracer(trace.Tracer):
    lits = {}

    def const(self, o):
        if 's' in o and 'g' in o:
            self.lits[o['g']] = o['s']
        return super().const(o)

    def term(self, t, b, i):
        if i.op == 'invoke' and i.noret:
            self.call(t, i)
            return self.finish(t, 'trap')
        return super().term(t, b, i)


class Rules:
    def __init__(self, ctx):
        self.ctx = ctx

    def bad(self, f, what, i, text):
        self.ctx.violation('%s:%s' % (f.base, what), '%s: %s' % (i.where() if i is not None else f.base, text))

    def unsure(self, f, why):
        self.ctx.count('undecided')
        self.ctx.sample('undecided %s: %s' % (f.base, why))


# ---- conditions on one loop variable, as sets of unsigned 64-bit numbers: sorted disjoint [lo, hi] ----

def holds(c, val, n):
    """the set of n for which condition c has the given truth value, or None when it is not about n alone"""
    if c[0] == 'not':
        return holds(c[1], not val, n)
    if c[0] != 'cmp':
        return None
    _, pred, a, b = c
    if not isinstance(b, int):
        return None
    div = 1
    if isinstance(a, tuple) and a[0] == 'udiv' and isinstance(a[2], int) and a[2] > 0:
        a, div = a[1], a[2]
    elif isinstance(a, tuple) and a[0] == 'lshr' and isinstance(a[2], int) and 0 <= a[2] < 64:
        a, div = a[1], 1 << a[2]
    if a != n:
        return None
    b &= M64
    lo, hi = {'eq': (b, b), 'ne': (b, b), 'ult': (0, b - 1), 'ule': (0, b), 'ugt': (b + 1, M64), 'uge': (b, M64),
              'slt': (0, b - 1), 'sle': (0, b), 'sgt': (b + 1, M64), 'sge': (b, M64)}[pred]
    if pred[0] == 's' and (b >> 63 or div == 1):
        return None
    lo, hi = lo * div, min(hi * div + div - 1, M64)
    pos = val != (pred == 'ne')
    if pos:
        return [(lo, hi)] if lo <= hi else []
    return [(x, y) for x, y in ((0, lo - 1), (hi + 1, M64)) if x <= y] if lo <= hi else [(0, M64)]


def meet(s, r):
    return [(max(a, c), min(b, d)) for a, b in s for c, d in r if max(a, c) <= min(b, d)]


def region(t, n):
    s = [(0, M64)]
    other = []
    for c, v in t.facts.items():
        r = holds(c, v, n)
        if r is None:
            if mentions(c, n):
                return None, other
            other.append((c, v))
        else:
            s = meet(s, r)
    return s, other


def mentions(t, n):
    return t == n or isinstance(t, tuple) and any(mentions(x, n) for x in t if isinstance(x, (tuple,)))


def char_of(v):
    """an 8-bit value as the polynomial it was cut from"""
    while isinstance(v, tuple) and v[0] in ('tr', 'zx', 'sx'):
        if v[0] == 'tr' and v[1] < 8:
            return None
        v = v[2]
    return v


def digit(v, n):
    """'last' when v is '0' + n, 'mod' when '0' + n % 10, else a description of what it is"""
    p = dict(poly(char_of(v))) if char_of(v) is not None else {}
    k = p.pop((), 0)
    flat = {}
    for m, c in p.items():
        x = m[0] if len(m) == 1 else None
        while isinstance(x, tuple) and x[0] in ('tr', 'zx', 'sx') and isinstance(x[2], tuple):
            x = x[2]
        flat[x if x is not None else m] = c
    if flat == {('urem', n, 10): 1} or flat == {n: 1, ('udiv', n, 10): -10}:
        return 'mod' if k == 48 else 'wrong'
    if flat == {n: 1}:
        return 'last' if k == 48 else 'wrong'
    if len(flat) == 1 and isinstance(next(iter(flat)), tuple) and next(iter(flat))[0] in ('urem', 'srem', 'udiv') and next(iter(flat))[1] == n:
        return 'wrong'
    return None


class Number:
    """one function that returns the text of an integer"""
    def __init__(self, R, f, signed):
        self.R, self.f, self.signed = R, f, signed
        self.T = Tracer(f, None, BENIGN)
        self.num = ('arg', self.T.argn[f.argids[1]])
        self.dst = ('arg', self.T.argn[f.argids[0]])
        self.blockof = {i.id: b for b, ii in enumerate(f.blocks) for i in ii}
        self.run()

    def run(self):
        R, f = self.R, self.f
        try:
            ts = self.T.run()
        except OverflowError:
            return R.unsure(f, 'too many paths')
        if not any(self.uses(t) for t in ts):
            return R.bad(f, 'nodigits', None, 'nothing that is written depends on the number')
        for t in ts:
            R.ctx.count('paths')
            if t.end in ('ret', 'back'):
                self.path(t)

    def uses(self, t):
        """is anything written or passed on a value made from the number"""
        own = {self.num} | {('phi', i.id) for h in self.T.heads for i in self.f.blocks[h] if i.op == 'phi'}
        return any(any(mentions(v, n) for n in own) for e in t.ev if e.k in ('store', 'call', 'icall')
                   for v in (e.v if e.k != 'store' else (e.v,)))

    def inserts(self, t):
        """(event, position, value, loop head or None) of every change to the result; None when some is not understood"""
        out = []
        last = {}
        for e in t.ev:
            if e.k == 'store' and isinstance(e.a, tuple):
                last[e.a] = e.v
            if e.k != 'call' or not e.v:
                continue
            if e.v[0] != self.dst:
                if any(v == self.dst for v in e.v[1:]):
                    return None
                continue
            h = next((h for h, body in self.T.body.items() if self.blockof.get(e.i.id) in body), None)
            if re.search(r'::vec\(\)$', e.a) or re.search(r'::clear\(', e.a):
                out.append((e, 'empty', None, h))
            elif re.search(r'::insert<.*>\(int, char( const&|&&|)\)', e.a) and len(e.v) == 3:
                v = last.get(e.v[2], e.v[2])
                out.append((e, e.v[1], v, h))
            elif re.search(r'::(push|operator\+=)\(char', e.a) and len(e.v) == 2:
                out.append((e, 'end', last.get(e.v[1], e.v[1]), h))
            elif 'strlit' in e.a:
                g, n = last.get(e.v[1]), last.get(trace.add(e.v[1], 8))
                s = self.T.lits.get(g[1]) if isinstance(g, tuple) and g[0] == 'g' else None
                if s is None or not isinstance(n, int):
                    return None
                out.append((e, 'literal', s[:n], h))
            elif re.search(r'UNSAFE__init_copy\(', e.a) and len(e.v) == 3:
                out.append((e, 'copy', (e.v[1], e.v[2]), h))
            elif re.search(r'~vec\(\)|::(begin|end|size|data)\(', e.a):
                continue
            else:
                return None
        return out

    def path(self, t):
        R, f, num = self.R, self.f, self.num
        if any(e.k == 'call' and e.a in ('snprintf', 'sprintf') for e in t.ev):
            return self.formatted(t)
        ops = self.inserts(t)
        if ops is not None and self.buffered(t, ops):
            return
        if ops is None:
            return R.unsure(f, 'the result is built by an operation that is not understood')
        of = {('phi', i.id): h for h in self.T.heads if h in t.blk for i in f.blocks[h] if i.op == 'phi'}
        inl = [o for o in ops if o[2] is not None and any(mentions(o[2], n) for n in of)]
        if not inl:
            if any(o[1] == 'copy' for o in ops):
                return R.unsure(f, 'buffered digits')
            if of and (t.end == 'ret' or not any(o[3] is not None for o in ops)):
                return R.unsure(f, 'a loop that does not build the result')
            return self.straight(t, ops)
        n = next(n for n in of if mentions(inl[0][2], n))
        h = of[n]
        if len(inl) != 1 or any(o[3] is not None and o is not inl[0] for o in ops):
            return R.unsure(f, 'digit loop of another shape')
        e, pos, v, _ = inl[0]
        d = digit(v, n)
        R.ctx.count('digit_steps')
        if isinstance(pos, int) and pos > 0 and not [o for o in ops[:ops.index(inl[0])] if o[1] != 'empty']:
            return R.bad(f, 'position', e.i, 'the first digit is inserted at position %d of an empty text' % pos)
        if pos != 0:
            late = [o for o in t.ev if o.k in ('call', 'icall') and t.ev.index(o) > t.ev.index(e)]
            if pos == 'end' and d and t.end == 'ret' and not late:
                return R.bad(f, 'order', e.i, 'the digits are added in the order they come out, last digit first')
            return R.unsure(f, 'digit position') if t.end == 'ret' else None
        if d == 'wrong':
            return R.bad(f, 'digit', e.i, 'the character added is %s, not the last decimal digit of what is left' % show(v))
        if d is None:
            return R.unsure(f, 'digit value ' + show(v))
        nx = t.env['back'].get(n[1]) if t.end == 'back' else None
        if nx is not None and narrowed(nx):
            return R.bad(f, 'narrow', e.i, 'after the first digit only the low %d bits of the number are printed' % narrowed(nx))
        s, _ = region(t, n)
        if s is None:
            return R.unsure(f, 'stop condition')
        if t.end == 'back':
            if nx != ('udiv', n, 10):
                if isinstance(nx, tuple) and (nx[0] in ('udiv', 'lshr') and nx[1] == n or nx == n) or isinstance(nx, int):
                    return R.bad(f, 'step', e.i, 'after a digit the number goes on as %s instead of divided by ten' % show(nx))
                return R.unsure(f, 'step ' + show(nx))
            if d == 'last' or not s or s[0][0] < 10:
                x = s[0][0] if s else 0
                if s and s[0][0] < 10:
                    R.bad(f, 'goeson', e.i, 'the loop goes on after the last digit (%d left): a leading zero is added' % x)
                elif s:
                    R.bad(f, 'digit', e.i, 'with more than one digit left the character added is not a digit')
            return
        if s and s[-1][1] > 9:
            R.bad(f, 'stops', e.i, 'the loop stops with digits left, for instance at %d: leading digits are lost' % next(max(a, 10) for a, b in s if b > 9))
            return
        self.start(t, h, n, ops, e)

    def buffered(self, t, ops):
        """digits written to a local array from its end towards its start, then copied; False for another shape"""
        R, f = self.R, self.f
        heads = {('phi', i.id): h for h in self.T.heads if h in t.blk for i in f.blocks[h] if i.op == 'phi'}
        wr = []
        for e in t.ev:
            if e.k == 'store' and isinstance(e.a, tuple):
                a = self.place(t, e.a, heads)
                if a is not None:
                    wr.append((e, e.v) + a)
        dig = [(w, n) for w in wr for n in heads if digit(w[1], n) is not None]
        if len(dig) != 1:
            return False
        (e, v, buf, j, c), n = dig[0]
        k = wr.index(dig[0][0])
        h = heads[n]
        size = size_of(f, buf)
        if j is None or heads.get(j) != h or k or size is None:
            return False
        K = self.first(t, j, buf)
        if K is None:
            return False
        R.ctx.count('digit_steps')
        d = digit(v, n)
        if d == 'wrong':
            R.bad(f, 'digit', e.i, 'the character added is %s, not the last decimal digit of what is left' % show(v))
            return True
        s, _ = region(t, n)
        if s is None:
            return False
        if t.end == 'back':
            nx, nj = t.env['back'].get(n[1]), t.env['back'].get(j[1])
            if nj is not None and trace.sub(nj, j) != -1 or len(wr) != 1:
                R.unsure(f, 'buffered digits that do not go backwards one by one')
            elif narrowed(nx):
                R.bad(f, 'narrow', e.i, 'after the first digit only the low %d bits of the number are printed' % narrowed(nx))
            elif nx != ('udiv', n, 10):
                R.unsure(f, 'step ' + show(nx))
            elif s and s[0][0] < 10:
                R.bad(f, 'goeson', e.i, 'the loop goes on after the last digit (%d left): a leading zero is added' % s[0][0])
            elif s and d == 'last':
                R.bad(f, 'digit', e.i, 'with more than one digit left the character added is not a digit')
            return True
        if s and s[-1][1] > 9:
            R.bad(f, 'stops', e.i, 'the loop stops with digits left, for instance at %d: leading digits are lost' % next(max(a, 10) for a, b in s if b > 9))
            return True
        sign, low = None, c
        for e2, v2, b2, j2, c2 in wr[1:]:
            if b2 != buf or j2 != j or c2 != low - 1 or v2 != 45 or sign:
                R.unsure(f, 'text after the digits')
                return True
            sign, low = '-', c2
        n0 = t.n.get(('init', n[1]))
        top, _ = region(t, n0) if isinstance(n0, tuple) else (None, None)
        most = max((b for a, b in top), default=M64) if top else M64
        if isinstance(n0, tuple) and narrowed(n0):
            most = min(most, (1 << narrowed(n0)) - 1)
        if self.signed:
            most = min(most, 1 << 63)
        if K + c > size - 1:
            R.bad(f, 'overflow', e.i, 'the first digit is written behind the buffer of %d bytes' % size)
        if K + low - (len(str(most)) - 1) < 0:
            R.bad(f, 'overflow', e.i, 'the digits of %d need %d bytes, the buffer has %d before its start' % (most, len(str(most)) + (sign is not None), K + c + 1))
        cp = [o for o in ops if o[1] == 'copy']
        rest = [o for o in ops if o[1] not in ('copy', 'empty')]
        if len(cp) != 1 or rest and ops.index(rest[0]) < ops.index(cp[0]):
            R.unsure(f, 'buffered digits copied in another way')
            return True
        src, ln = cp[0][2]
        a = self.place(t, src, heads)
        want = trace.sub(K + c + 1 - low, j if self.index else trace.sub(j, buf))
        if a != (buf, j, low) or set(poly(trace.sub(ln, want))) - {()}:
            R.unsure(f, 'copy of ' + show(src))
            return True
        x = trace.sub(ln, want)
        if x != 0:
            R.bad(f, 'length', cp[0][0].i, 'the text copied is %d bytes %s' % (abs(x), 'too long' if x > 0 else 'too short'))
            return True
        for _, pos, v2, _ in rest:
            if pos != 0 or v2 != 45 or sign:
                R.unsure(f, 'text after the digits')
                return True
            sign = '-'
        R.ctx.count('numbers')
        self.judge(t, n0, sign, e)
        return True

    index = True

    def place(self, t, a, heads):
        """(array, loop variable, constant) of an address in a local array of bytes: base + j + c, or the loop pointer j + c"""
        base, j, c = None, None, 0
        todo = list(poly(a).items())
        while todo:
            m, k = todo.pop()
            if m == ():
                c += k
                continue
            x = m[0]
            if len(m) != 1 or k != 1:
                return None
            if x[0] == 'alloca' and base is None:
                base = x
            elif x in heads and j is None:
                j = x
            elif x[0] in ('sx', 'zx'):
                todo += list(poly(x[2]).items())
            elif x[0] == 'gepx' and len(x[1]) == 1 and re.search(r'x i8\]', str(x[2])):
                todo += list(poly(x[1][0]).items())
            else:
                return None
        if base is None and j is not None:
            i0 = t.n.get(('init', j[1]))
            al = [m[0] for m in poly(i0) if len(m) == 1 and m[0][0] == 'alloca'] if i0 is not None else []
            if len(al) == 1:
                self.index = False
                return al[0], j, c
        return (base, j, c) if base is not None else None

    def first(self, t, j, buf):
        i0 = t.n.get(('init', j[1]))
        if i0 is None:
            return None
        k = i0 if isinstance(i0, int) else trace.sub(i0, buf)
        if not isinstance(k, int):
            g = list(poly(k).items())
            k = sum(x if m == () else sum(c for q, c in poly(m[0][1][0]).items() if q == ()) if len(m) == 1 and m[0][0] == 'gepx' and len(m[0][1]) == 1 and x == 1 else 10 ** 9 for m, x in g)
            if k > 10 ** 8:
                return None
        return k

    def start(self, t, h, n, ops, e):
        R, f, num = self.R, self.f, self.num
        k = next(k for k, o in enumerate(ops) if o[0] is e)
        if any(o[1] not in ('empty',) for o in ops[:k]):
            return R.unsure(f, 'text before the digits')
        n0 = t.n.get(('init', n[1]))
        rest = ops[k + 1:]
        sign = None
        for _, pos, v, _ in rest:
            if pos == 0 and v == 45 and sign is None:
                sign = '-'
            elif isinstance(pos, int) and pos > 0 and isinstance(v, int) and not sign:
                return R.bad(f, 'sign', e.i, 'the character %r is put behind the first %d digits' % (chr(v & 255), pos))
            elif pos == 0 and isinstance(v, int):
                return R.bad(f, 'sign', e.i, 'the character %r is put before the digits' % chr(v & 255))
            else:
                return R.unsure(f, 'text after the digits')
        R.ctx.count('numbers')
        self.judge(t, n0, sign, e)

    def judge(self, t, n0, sign, e):
        """the result is sign ~ D(n0) with n0 unsigned"""
        R, f, num = self.R, self.f, self.num
        neg = self.sign_of(t)
        low = narrowed(n0)
        if low:
            s, _ = region(t, n0[-1] if n0[0] != 'and' else n0[1])
            if s is None:
                return R.unsure(f, 'number printed ' + show(n0))
            if s and s[-1][1] >> low:
                return R.bad(f, 'narrow', e.i, 'only the low %d bits of the number are printed, for instance of %d' % (low, max(s[-1][0], 1 << low)))
            n0 = n0[-1] if n0[0] != 'and' else n0[1]
        if n0 == num:
            if sign:
                return R.bad(f, 'sign', e.i, "a '-' is put before the digits of the number itself") if neg is not None or not self.signed else R.unsure(f, 'sign')
            if self.signed and neg is not False:
                if neg is None:
                    return R.unsure(f, 'sign condition')
                return R.bad(f, 'negative', e.i, 'a negative number is printed as the unsigned number of the same bits')
            return
        if n0 == sub(0, num):
            if not self.signed or neg is False:
                return R.bad(f, 'negated', e.i, 'the digits are those of the negated number')
            if neg is True and not sign:
                return R.bad(f, 'sign', e.i, "no '-' is put before the digits of a negative number")
            if neg == 'any':
                return R.bad(f, 'negated', e.i, 'the digits are those of the negated number, also when it is positive')
            if neg is None:
                return R.unsure(f, 'sign condition')
            return
        if isinstance(n0, tuple) and n0[0] == 'p' and set(poly(n0)) <= {(), (num,)}:
            return R.bad(f, 'value', e.i, 'the digits are those of %s' % show(n0))
        R.unsure(f, 'number printed ' + show(n0))

    def sign_of(self, t):
        """True, False or 'any' for the signs the path admits; None when a condition on the number is not understood"""
        r = self.admits(t)
        if r is None:
            return None
        neg, pos = any(a < 0 for a, b in r), any(b >= 0 for a, b in r)
        return 'any' if neg and pos else True if neg else False

    def admits(self, t):
        """the signed numbers the path is taken for"""
        num, r = self.num, [(-1 << 63, (1 << 63) - 1)]
        for c, v in t.facts.items():
            if c[0] == 'not':
                c, v = c[1], not v
            if not mentions(c, num):
                continue
            if c[0] != 'cmp' or c[2] != num or not isinstance(c[3], int) or c[1][0] == 'u':
                if c[0] == 'cmp' and isinstance(c[2], tuple) and c[2][0] == 'tr' and c[2][2] == num:
                    self.R.bad(self.f, 'narrow', None, 'the sign is taken from the low %d bits of the number' % c[2][1])
                return None
            k, lo, hi = c[3], -1 << 63, (1 << 63) - 1
            x, y = {'eq': (k, k), 'ne': (k, k), 'slt': (lo, k - 1), 'sle': (lo, k), 'sgt': (k + 1, hi), 'sge': (k, hi)}[c[1]]
            if v != (c[1] == 'ne'):
                r = meet(r, [(x, y)])
            else:
                r = meet(r, [(lo, x - 1), (y + 1, hi)])
        return r

    def straight(self, t, ops):
        """a path without a loop: a literal for one number"""
        R, f, num = self.R, self.f, self.num
        if t.end != 'ret':
            return
        vals = [c[3] for c, v in t.facts.items() if v and c[0] == 'cmp' and c[1] == 'eq' and c[2] == num and isinstance(c[3], int)]
        text = ''
        for _, pos, v, _ in ops:
            if pos == 'literal':
                text += v
            elif pos == 'empty':
                text = ''
            elif isinstance(v, int) and pos in (0, 'end'):
                text = chr(v & 255) + text if pos == 0 else text + chr(v & 255)
            else:
                return R.unsure(f, 'text without digits')
        if not vals:
            r = self.admits(t)
            if r is None or any(x[0] in ('ld', 'call', 'phi') for c in t.facts if not mentions(c, num) for x in atoms(c)):
                return R.unsure(f, 'constant text')
            r = [(a, b) for a, b in r if a <= b]
            if sum(b - a + 1 for a, b in r) > 1:
                R.bad(f, 'constant', ops[-1][0].i if ops else None, 'every number from %d to %d has the text %r' % (r[0][0], r[0][1], text))
            elif r and str(r[0][0] if self.signed else r[0][0] & M64) != text:
                R.bad(f, 'literal', ops[-1][0].i if ops else None, 'the text of %d is %r' % (r[0][0], text))
            return
        R.ctx.count('numbers')
        x = vals[0] if self.signed else vals[0] & M64
        if str(x) != text:
            R.bad(f, 'literal', ops[-1][0].i if ops else None, 'the text of %d is %r' % (x, text))

    def formatted(self, t):
        e = next(e for e in t.ev if e.k == 'call' and e.a in ('snprintf', 'sprintf'))
        fmt = self.T.lits.get((e.v[-2] or (0, 0))[1] if isinstance(e.v[-2], tuple) else None, '').rstrip('\0')
        m = re.match(r'%(hh|h|l|ll|j|z|)([diuxXo])$', fmt)
        if m and t.end == 'ret' and e.v[-1] == self.num:
            w = {'': 32, 'h': 16, 'hh': 8}.get(m.group(1), 64)
            if w < 64:
                self.R.bad(self.f, 'narrow', e.i, 'only the low %d bits of the number are printed' % w)
            elif (m.group(2) in 'di') != self.signed or m.group(2) in 'xXo':
                self.R.bad(self.f, 'format', e.i, 'the number is formatted as %s' % fmt)
            else:
                copied(self.R, self.f, self.T, t, e, 20)
            return
        self.R.unsure(self.f, 'formatted by %r' % fmt)


def narrowed(x):
    if isinstance(x, tuple) and x[0] in ('zx', 'sx', 'tr') and x[1] < 64:
        return x[1]
    if isinstance(x, tuple) and x[0] == 'and' and isinstance(x[2], int) and x[2] & M64 != M64 and ((x[2] & M64) + 1) & (x[2] & M64) == 0:
        return (x[2] & M64).bit_length()
    return None


# ---- formatted text copied from a buffer ----

LONGEST = {'f': lambda p: 1 + 309 + (1 + p if p else 0), 'e': lambda p: 8 + p, 'g': lambda p: 8 + max(p, 1), 'a': lambda p: 24}


def longest(fmt):
    m = re.match(r'%([#+ 0]*)(?:\.(\d+))?l?([feEgGa])$', fmt)
    if not m:
        return None
    p = int(m.group(2)) if m.group(2) is not None else 6
    return LONGEST[m.group(3).lower()](p)


def value(t, env):
    """a term over one unknown, evaluated"""
    if isinstance(t, int):
        return t
    if t in env:
        return env[t]
    h = t[0]
    if h == 'p':
        s = 0
        for m, c in t[1]:
            for x in m:
                c *= value(x, env)
            s += c
        return s
    if h in ('sx', 'zx', 'tr'):
        x = value(t[2], env)
        if h == 'tr':
            return trace.sx(x, t[1])
        return trace.sx(x, t[1]) if h == 'sx' else x & ((1 << t[1]) - 1)
    if h == 'sel':
        return value(t[2] if value(t[1], env) else t[3], env)
    if h == 'not':
        return 1 - value(t[1], env)
    if h == 'cmp':
        return trace.cmp_(t[1], value(t[2], env), value(t[3], env))
    if h in ('umin', 'smin', 'umax', 'smax'):
        return (min if 'min' in h else max)(value(t[1], env), value(t[2], env))
    raise KeyError(h)


def size_of(f, a):
    """bytes of a local array"""
    if not (isinstance(a, tuple) and a[0] == 'alloca'):
        return None
    m = re.match(r'\[(\d+) x i8\]$', f.inst[a[1]].d.get('at', ''))
    return int(m.group(1)) if m else None


def copied(R, f, T, t, e, top):
    """e formats at most top characters; on this path the result must be exactly those"""
    buf, r = e.v[0], e.x
    cap = e.v[1] if e.a == 'snprintf' else None
    size = size_of(f, buf)
    if size is None or cap is not None and not isinstance(cap, int):
        return R.unsure(f, 'buffer of unknown size')
    R.ctx.count('formats')
    if cap is None and top + 1 > size:
        return R.bad(f, 'overflow', e.i, 'up to %d characters and a terminator are written to %d bytes' % (top, size))
    if cap is not None and cap > size:
        return R.bad(f, 'overflow', e.i, 'the buffer of %d bytes is announced as %d' % (size, cap))
    dst = ('arg', T.argn[f.argids[0]])
    cs = [c for c in t.ev if c.k == 'call' and c.v and c.v[0] == dst and re.search(r'UNSAFE__init_copy\(', c.a)]
    if len(cs) != 1 or cs[0].v[1] != buf:
        return R.unsure(f, 'text copied in another way')
    n = cs[0].v[2]
    env0 = {}
    for L in range(1, top + 1):
        env0[r] = L
        try:
            if any(bool(value(c, env0)) != v for c, v in t.facts.items()):
                continue
            got = value(n, env0)
        except KeyError:
            return R.unsure(f, 'length ' + show(n))
        if cap is not None and L >= cap:
            return R.bad(f, 'truncated', e.i, 'a text may be %d characters long, the buffer holds %d and a terminator: '
                         'longer texts are cut off%s' % (top, cap - 1, ' and end in a NUL' if got >= cap else ''))
        if got != L:
            return R.bad(f, 'length', cs[0].i, 'of %d characters %d are copied' % (L, got))
    R.ctx.count('lengths', top)
    for L in (-1, 0):
        env0[r] = L
        try:
            if all(bool(value(c, env0)) == v for c, v in t.facts.items()) and not 0 <= value(n, env0) <= size:
                return R.bad(f, 'error', cs[0].i, 'when formatting fails, %d characters are copied' % value(n, env0))
        except KeyError:
            pass


def floats(R, f):
    T = Tracer(f, None, BENIGN)
    ts = T.run()
    seen = False
    for t in ts:
        R.ctx.count('paths')
        e = next((e for e in t.ev if e.k == 'call' and e.a in ('snprintf', 'sprintf')), None)
        if t.end != 'ret' or e is None:
            continue
        g = e.v[-2]
        fmt = T.lits.get(g[1], '').rstrip('\0') if isinstance(g, tuple) and g[0] == 'g' else None
        top = longest(fmt) if fmt else None
        if top is None:
            R.unsure(f, 'format %r' % fmt)
            continue
        seen = True
        copied(R, f, T, t, e, top)
    if not seen:
        R.unsure(f, 'no formatting call')


def booleans(R, f):
    N = Tracer(f, None, BENIGN)
    arg = ('arg', N.argn[f.argids[1]])
    texts = {}
    for t in N.run():
        R.ctx.count('paths')
        if t.end != 'ret':
            continue
        st = {e.a: e.v for e in t.ev if e.k == 'store'}
        k = [x for x in t.ev if x.k == 'call' and 'strlit' in x.a]
        v = next((v for c, v in t.facts.items() if c == arg or mentions(c, arg)), None)
        if len(k) != 1 or v is None:
            R.unsure(f, 'boolean text')
            continue
        g = st.get(k[0].v[1])
        texts.setdefault(v, N.lits.get(g[1]) if isinstance(g, tuple) else None)
    for v, s in texts.items():
        if s is not None and s.rstrip('\0') != '01'[v]:
            R.bad(f, 'boolean', None, 'the text of %s is %r' % (('false', 'true')[v], s))
    if len(texts) == 2 and texts[True] is not None and texts[True] == texts[False]:
        R.bad(f, 'same', None, 'true and false have the same text')


def printing(R, f):
    T = Tracer(f, None, BENIGN)
    ids = f.argids
    base, count = (('arg', T.argn[a]) for a in ids[:2])
    wrote = False
    ts = T.run()
    sizes = {key(t, c) for t in ts for e in t.ev if e.k == 'call' and e.a == 'fwrite' for c in (e.v[1], e.v[2]) if c != 1}
    for t in ts:
        R.ctx.count('paths')
        calls = [e for e in t.ev if e.k == 'call']
        for e in calls:
            if e.a in ('fputs', 'puts', 'printf', 'fprintf'):
                p = e.v[0] if e.a != 'fprintf' else e.v[-1]
                if not (isinstance(p, tuple) and p[0] == 'g' and len(e.v) < 2 + (e.a != 'puts')):
                    R.bad(f, 'cstring', e.i, '%s stops at the first NUL and reads past text that has none: the text is printed short or long' % e.a)
                    wrote = True
        # the pass over the parts
        ph = [('phi', i.id) for h in T.heads for i in f.blocks[h] if i.op == 'phi']
        if t.end == 'back':
            w = [e for e in calls if e.a == 'fwrite']
            nxt = t.env['back']
            i = next((p for p in ph if p[1] in nxt), None)
            if i is None or t.n.get(('init', i[1])) != 0:
                if i is not None and isinstance(t.n.get(('init', i[1])), int):
                    R.bad(f, 'first', None, 'printing starts at part %d' % t.n[('init', i[1])])
                else:
                    R.unsure(f, 'pass')
                continue
            if sub(nxt[i[1]], i) != 1:
                if isinstance(sub(nxt[i[1]], i), int):
                    R.bad(f, 'step', None, 'printing goes on with the part %d further' % sub(nxt[i[1]], i))
                else:
                    R.unsure(f, 'step')
            if not w and any(v and c[0] == 'cmp' and c[1] in ('eq', 'sle') and c[3] == 0 and key(t, c[2]) in sizes for c, v in t.facts.items()):
                continue                    # an empty part needs no output
            if not w:
                if not wrote and not any(c.a not in ('fputs', 'puts', 'printf') for c in calls):
                    R.bad(f, 'skipped', None, 'a part is passed over without being printed' + when(t))
                else:
                    R.unsure(f, 'output call')
                continue
            if len(w) > 1:
                R.unsure(f, 'several writes')
                continue
            R.ctx.count('prints')
            e = w[0]
            p, a, n = e.v[0], e.v[1], e.v[2]
            if n == 1:
                a, n = n, a
            if a != 1:
                if isinstance(a, int) and isinstance(n, tuple) and n[0] in ('sx', 'zx') and n[2][0] in ('ld', 'and', 'ashr'):
                    R.bad(f, 'length', e.i, 'of a part, %d times its length is printed' % a)
                else:
                    R.unsure(f, 'item size')
                continue
            past = [beyond(c, v, i, count) for c, v in t.facts.items() if mentions(c, i) and mentions(c, count)]
            if past and None not in past and min(past) >= 0:
                R.bad(f, 'past', e.i, 'a part behind the last one is printed')
            el = {at for x in atoms(p) | atoms(n) for at in [t.n.get(('at', x[1]))] if x[0] == 'ld' and at is not None}
            np = dict(poly(n if not (isinstance(n, tuple) and n[0] in ('sx', 'zx')) else n[2]))
            if np.pop((), 0) or len(np) > 1 or any(c != 1 for c in np.values()):
                R.bad(f, 'length', e.i, 'the number of bytes printed is %s' % show(n))
            if cut(n):
                R.bad(f, 'length', e.i, 'only the low %d bits of the length count: longer parts are cut off' % cut(n))
            if isinstance(n, int):
                R.bad(f, 'length', e.i, 'always %d bytes are printed' % n)
            d = [sub(x, y) for x in el for y in el]
            if any(not isinstance(x, int) or abs(x) > 12 for x in d):
                R.bad(f, 'mixed', e.i, 'the bytes of one part are printed with the length of another')
        elif t.end == 'ret':
            nl = [e for e in calls if e.a in ('putc', 'fputc', 'putchar') and e.v[0] == 10 or
                  e.a in ('fwrite', 'fputs') and isinstance(e.v[0], tuple) and T.lits.get(e.v[0][1], '').rstrip('\0') == '\n']
            alien = [e for e in calls if e.a not in ('putc', 'fputc', 'putchar', 'fwrite', 'fputs', 'fflush')]
            if len(nl) == 1:
                R.ctx.count('newlines')
            elif nl or not alien:
                R.bad(f, 'newline', None, '%s newline%s printed%s' % (len(nl) or 'no', '' if len(nl) == 1 else 's are' if nl else ' is', when(t)))
            # the pass ends only when all parts are printed
            i = next((p for p in ph if any(mentions(c, p) for c in t.facts)), None)
            if i is not None:
                stop = [c for c, v in t.facts.items() if c[0] == 'cmp' and c[2] == i and not v] + [c for c, v in t.facts.items() if c[0] == 'cmp' and c[2] == i and c[1] == 'eq' and v]
                if stop and all(isinstance(sub(c[3], count), int) and sub(c[3], count) != 0 for c in stop):
                    R.bad(f, 'last', None, 'printing ends at part %s' % show(stop[0][3]))
    R.ctx.fn(f.base)


def cut(n):
    """the width below 31 bits a loaded length is narrowed to, else None"""
    if not isinstance(n, tuple):
        return None
    if n[0] in ('tr', 'zx', 'sx') and isinstance(n[2], tuple):
        return n[1] if n[1] < 31 and n[2][0] == 'ld' else cut(n[2])
    if n[0] == 'and' and isinstance(n[2], int) and isinstance(n[1], tuple) and n[1][0] in ('ld', 'sx', 'zx'):
        x = n[1][2] if n[1][0] != 'ld' else n[1]
        return n[2].bit_length() if x[0] == 'ld' and 0 < n[2] < 1 << 30 else None
    return None


def beyond(c, v, i, count):
    """the largest i - count the condition allows, None when it is of another form"""
    if c[0] == 'not':
        return beyond(c[1], not v, i, count)
    if c[0] != 'cmp':
        return None
    x, y = ((z[2] if isinstance(z, tuple) and z[0] in ('sx', 'zx') else z) for z in c[2:])
    p, d = c[1], sub(x, y)
    if not isinstance(sub(d, sub(i, count)), int):
        if not isinstance(sub(d, sub(count, i)), int):
            return None
        x, y, d = y, x, sub(y, x)
        p = p.replace('lt', '#').replace('gt', 'lt').replace('#', 'gt').replace('le', '#').replace('ge', 'le').replace('#', 'ge')
    k = sub(d, sub(i, count))
    if not v:
        p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[p]
    if p in ('slt', 'ult'):
        return -k - 1
    if p in ('sle', 'ule', 'eq'):
        return -k
    return -1 if p == 'ne' and k == 0 else None


def key(t, x):
    """a term with what was loaded named by its address"""
    if isinstance(x, tuple):
        if x and x[0] in ('sx', 'zx'):
            return key(t, x[2])
        if x and x[0] == 'ld':
            return ('M', t.n.get(('at', x[1])))
        return tuple(key(t, y) for y in x)
    return x


def when(t):
    s = ', '.join(('' if v else 'not ') + show(c) for c, v in list(t.facts.items())[-2:])
    return ' (when %s)' % s if s else ''


def atoms(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t and t[0] in ('ld', 'arg', 'phi', 'call', 'g'):
            out.add(t)
        else:
            for x in t:
                atoms(x, out)
    return out


def panics(R, f):
    T = Tracer(f, None, BENIGN)
    arg = ('arg', T.argn[f.argids[-1]])
    for t in T.run():
        R.ctx.count('paths')
        thrown = [e for e in t.ev if e.k == 'call' and e.a == '__cxa_throw']
        mk = [e for e in t.ev if e.k == 'call' and re.search(r'(runtime_error|logic_error|exception)\w*::\w+\(char const\*\)', e.a)]
        if t.end == 'ret':
            R.bad(f, 'returns', None, 'a panic returns to its caller')
        if not thrown:
            if t.end != 'ret' and not any(e.k in ('call', 'icall') and e.i.noret and e.a != 'llvm.trap' for e in t.ev) and not any(i.op == 'resume' for b in t.blk for i in f.blocks[b]):
                R.bad(f, 'nothrow', None, 'a path of the panic ends without an error: execution runs on into whatever code follows')
            continue
        R.ctx.count('panics')
        if len(mk) != 1:
            R.unsure(f, 'exception built in another way')
            continue
        p = mk[0].v[1]
        if p == arg:
            if 'vec' in f.args[-1].get('dem', '') or 'ONS_3vec' in f.name:
                R.bad(f, 'message', mk[0].i, 'the string object itself is passed as its text')
            continue
        loads = [x for x in atoms(p) if x[0] == 'ld']
        if arg not in atoms(p) and not any(arg in atoms(t.n.get(('at', x[1]), 0)) for x in loads):
            R.bad(f, 'message', mk[0].i, 'the error carries another text than the one given')
            continue
        k = t.ev.index(mk[0])
        zero = [j for j, e in enumerate(t.ev[:k]) if e.k == 'call' and e.v and e.v[0] == arg and re.search(r'push\(|operator\+=|insert<', e.a) and stored(t, j) == 0]
        if not zero:
            alien = [j for j, e in enumerate(t.ev[:k]) if e.k == 'call' and e.v and e.v[0] == arg]
            put = [j for j in alien if re.search(r'push\(', t.ev[j].a) and isinstance(stored(t, j), int)]
            if alien and alien == put:
                R.bad(f, 'terminator', mk[0].i, 'the text ends in the character %d, not in the terminator: the message runs on into whatever follows it' % stored(t, put[-1]))
            elif alien:
                R.unsure(f, 'termination')
            else:
                R.bad(f, 'terminator', mk[0].i, 'the text is not terminated: the message runs on into whatever follows it')
            continue
        stale = [j for j, e in enumerate(t.ev[:zero[-1]]) if e.k == 'load' and e.v in loads]
        if stale:
            R.bad(f, 'stale', mk[0].i, 'the address of the text is taken before the terminator is added, which may move it')
    R.ctx.fn(f.base)


def stored(t, j):
    e = t.ev[j]
    a = e.v[-1]
    for c in reversed(t.ev[:j]):
        if c.k == 'store' and c.a == a:
            return c.v
    return a


def run(ctx):
    ctx.rule('the text of an integer consists of exactly its decimal digits, last digit last, with a minus sign exactly for negative numbers, for all 64-bit values')
    ctx.rule('the text of a floating point number fits the buffer it is formatted in, for every double, and is copied in full')
    ctx.rule('printing writes exactly the bytes of every part, in order, and one newline')
    ctx.rule('a panic never returns and carries the text it was given, terminated')
    prog = ir.load([env.native_bc(SRC, ('-DNDEBUG',))], ('-inline', '-root', ROOT, '-keep', KEEP, '-passes', 'function(sroa,early-cse,simplifycfg)'))
    R = Rules(ctx)
    got = set()
    for f in prog.fns.values():
        if not f.blocks:
            continue
        d = f.dem or f.name
        m = re.match(r'_ZN2fu(?:6(u64dec|i64dec|f64dec)|7(booldec|println)|4(fail))', f.name)
        if not m or not f.name.endswith('.inl'):
            continue
        n = next(x for x in m.groups() if x)
        got.add(n)
        ctx.fn(f.base)
        if n in ('u64dec', 'i64dec'):
            Number(R, f, n == 'i64dec')
        else:
            {'f64dec': floats, 'booldec': booleans, 'println': printing, 'fail': panics}[n](R, f)
    miss = {'u64dec', 'i64dec', 'f64dec', 'println', 'fail'} - got
    if miss:
        raise env.Broken('not found: ' + ', '.join(sorted(miss)))
