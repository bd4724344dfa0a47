"""Abstract interpretation of comparison and search functions.

Integers and pointers are linear forms over uninterpreted terms (arguments, loads, lengths, results of
nested comparators, memcmp); branches and selects split the abstract state on the sign of a linear form,
which becomes a linear fact; whether a fact set still has a solution or entails an inequality is decided
by variable elimination.  A loop header counts its iterations with a term K; on the back edge facts about
the current K are dropped and the per-element results known for it become facts about all earlier
elements.  At every return the rules for the function's kind are applied to the facts of that path."""
import re
from . import ir, env

# ---------------------------------------------------------------- terms and linear forms
_ids, _terms, _depth = {}, [], []


def T(t):
    n = _ids.get(t)
    if n is None:
        d = 0
        for e in t[1:]:
            if is_lin(e):
                d = max([d] + [_depth[x] + 1 for x, _ in e[1]])
            elif isinstance(e, tuple):
                for z in e:
                    if is_lin(z):
                        d = max([d] + [_depth[x] + 1 for x, _ in z[1]])
        if d > 14:
            raise Undecided('deeply nested value')
        n = _ids[t] = len(_terms)
        _terms.append(t)
        _depth.append(d)
    return n


def lin(t):
    return (0, ((T(t), 1),))


def C(k):
    return (k, ())


def add(a, b, s=1):
    d = dict(a[1])
    for t, c in b[1]:
        d[t] = d.get(t, 0) + s * c
    return (a[0] + s * b[0], tuple(sorted((t, c) for t, c in d.items() if c)))


def sub(a, b):
    return add(a, b, -1)


def mul(a, k):
    return (a[0] * k, tuple((t, c * k) for t, c in a[1])) if k else C(0)


def isc(a):
    return not a[1]


def is_lin(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple)


def mapl(l, fn, memo):
    out = C(l[0])
    for t, c in l[1]:
        out = add(out, mul(mapt(t, fn, memo), c))
    return out


def mapt(t, fn, memo):
    if t in memo:
        return memo[t]
    r = fn(_terms[t])
    if r is None:
        x = _terms[t]
        y = tuple(mapl(e, fn, memo) if is_lin(e) else
                  tuple(mapl(z, fn, memo) for z in e) if isinstance(e, tuple) and e and all(map(is_lin, e)) else e for e in x)
        r = lin(y) if y != x else (0, ((t, 1),))
        r = simplify(r)
    memo[t] = r
    return r


def simplify(r):
    """cc(x,x)=0; comparator orientation."""
    if len(r[1]) != 1:
        return r
    t, c = r[1][0]
    x = _terms[t]
    if x[0] == 'cc':
        h = len(x[2]) // 2
        if x[2][:h] == x[2][h:]:
            return C(0)
    if x[0] == 'mem' and x[1] == x[2]:
        return C(0)
    return r


def has_term(l, pred, memo=None):
    memo = {} if memo is None else memo
    for t, _ in l[1]:
        if t not in memo:
            memo[t] = False
            x = _terms[t]
            memo[t] = pred(x) or any(has_term(e, pred, memo) if is_lin(e) else
                                     any(has_term(z, pred, memo) for z in e if is_lin(z)) if isinstance(e, tuple) else False
                                     for e in x[1:])
        if memo[t]:
            return True
    return False


def show(l):
    def st(t):
        x = _terms[t]
        if x[0] == 'a':
            return x[2] if len(x) > 2 else 'arg%d' % x[1]
        if x[0] == 'K':
            return 'k'
        return x[0] + '(' + ', '.join(show(e) if is_lin(e) else
                                      ', '.join(show(z) if is_lin(z) else str(z) for z in e) if isinstance(e, tuple) else ir.unhash(str(e))
                                      for e in x[1:]) + ')'
    s = ' '.join(('+' if c > 0 else '-') + ('' if abs(c) == 1 else '%d*' % abs(c)) + st(t) for t, c in l[1])
    if l[0] or not s:
        s += ' %+d' % l[0]
    return s.strip().lstrip('+').strip()


# ---------------------------------------------------------------- entailment
def component(facts, ts):
    ts, rest, out = set(ts), list(facts), []
    ch = True
    while ch:
        ch = False
        nxt = []
        for f in rest:
            if any(t in ts for t, _ in f[1]):
                out.append(f)
                ts.update(t for t, _ in f[1])
                ch = True
            else:
                nxt.append(f)
        rest = nxt
    return out


_feas = {}


def feasible(facts):
    """Is the conjunction of (f >= 0) satisfiable over the integers (rational relaxation, tightened)?"""
    key = frozenset(facts)
    if key in _feas:
        return _feas[key]
    fs = set(key)
    if len(_feas) > 400000:
        _feas.clear()
    res = None
    while res is None:
        nf = set()
        for f in fs:
            if isc(f):
                if f[0] < 0:
                    res = False
                continue
            nf.add(f)
        if res is not None:
            break
        if not nf:
            res = True
            break
        cnt = {}
        for f in nf:
            for t, c in f[1]:
                p = cnt.setdefault(t, [0, 0])
                p[c > 0] += 1
        t = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        pos = [f for f in nf if any(x == t and c > 0 for x, c in f[1])]
        neg = [f for f in nf if any(x == t and c < 0 for x, c in f[1])]
        fs = {f for f in nf if not any(x == t for x, _ in f[1])}
        for p in pos:
            cp = dict(p[1])[t]
            for n in neg:
                cn = -dict(n[1])[t]
                r = add(mul(p, cn), mul(n, cp))
                g = 0
                for _, c in r[1]:
                    g = gcd(g, abs(c))
                if g > 1:
                    r = (r[0] // g, tuple((x, c // g) for x, c in r[1]))
                fs.add(r)
        if len(fs) > 3000:
            res = True
    _feas[key] = res
    return res


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


class Undecided(Exception):
    pass


class State:
    __slots__ = ('blk', 'pc', 'env', 'facts', 'atoms', 'pre', 'unary', 'steps', 'mems')

    def copy(self):
        s = State()
        s.blk, s.pc, s.env, s.facts, s.atoms, s.pre, s.unary, s.steps, s.mems = \
            self.blk, self.pc, dict(self.env), self.facts, self.atoms, dict(self.pre), self.unary, self.steps, self.mems
        return s


NONNEG = ('size', 'K', 'data', 'memmem')


class Exec:
    """One function.  self.rets: list of (State, value, ret inst); self.traps: list of (State, inst)."""
    LIMIT = 60000

    def __init__(self, f, half, kept, ranges=()):
        self.f, self.half, self.kept = f, half, kept
        self.rets, self.traps, self.oob = [], [], []
        self.base = set(ranges)
        self.derive = None
        self.loops()
        self.work = 0

    # -- structure
    def loops(self):
        f = self.f
        dom = f.dom()
        self.hdr, self.body = {}, {}
        for b in dom:
            for e in f.succ[b]:
                if e.dst in dom[b]:
                    self.hdr.setdefault(e.dst, []).append(b)
        for h, backs in self.hdr.items():
            body, w = {h}, list(backs)
            while w:
                x = w.pop()
                if x not in body:
                    body.add(x)
                    w += [e.src for e in f.pred[x]]
            self.body[h] = body
        # induction phis: header phi whose every back value is phi + constant (through casts)
        self.iv = {}
        for h, backs in self.hdr.items():
            for p in f.blocks[h]:
                if p.op != 'phi':
                    break
                step = None
                ok = p.ty != 'i1'
                for v, b in p.ops:
                    if b in backs:
                        s = self.stepof(v, p.id)
                        if s is None or step not in (None, s):
                            ok = False
                        step = s
                if ok and step:
                    self.iv[p.id] = step

    def stepof(self, v, pid, depth=0):
        """constant c with v == phi + c, else None."""
        if v == pid:
            return 0
        if not isinstance(v, int) or depth > 12:
            return None
        i = self.f.inst.get(v)
        if i is None:
            return None
        if i.op == 'add':
            for x, y in ((0, 1), (1, 0)):
                c = ir.const(i.ops[y])
                if c is not None:
                    s = self.stepof(i.ops[x], pid, depth + 1)
                    return None if s is None else s + c
        if i.op == 'sub' and ir.const(i.ops[1]) is not None:
            s = self.stepof(i.ops[0], pid, depth + 1)
            return None if s is None else s - ir.const(i.ops[1])
        if i.op == 'getelementptr' and i.d.get('off') is not None:
            s = self.stepof(i.ops[0], pid, depth + 1)
            return None if s is None else s + i.d['off']
        if i.op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'):
            return self.stepof(i.ops[0], pid, depth + 1)
        if i.op == 'phi':                       # join inside the loop
            ss = {self.stepof(x, pid, depth + 1) for x, _ in i.ops}
            return ss.pop() if len(ss) == 1 else None
        if i.op == 'select':
            ss = {self.stepof(x, pid, depth + 1) for x in i.ops[1:]}
            return ss.pop() if len(ss) == 1 else None
        return None

    # -- values
    def val(self, s, v):
        if isinstance(v, dict):
            c = ir.const(v)
            if c is not None:
                return C(c)
            if 'g' in v:
                return lin(('glob', v['g']))
            if v.get('ce') == 'getelementptr' and 'off' in v:
                return add(self.val(s, v['ops'][0]), C(v['off']))
            return lin(('const', repr(sorted(v.items()))))
        if v in s.env:
            return s.env[v]
        raise Undecided('value %s' % v)

    def asbool(self, v):
        if is_lin(v):
            return ('b', v[0] != 0) if isc(v) else ('icmp', 'ne', v, C(0))
        return v

    # -- facts
    def entails(self, s, l):
        """l >= 0 on every solution of the facts."""
        if isc(l):
            return l[0] >= 0
        q = (-l[0] - 1, tuple((t, -c) for t, c in l[1]))
        fs = component(self.all(s, q), [t for t, _ in q[1]])
        return not feasible(fs + [q])

    def all(self, s, q=None):
        out = list(s.facts)
        seen = set()
        for f in out + ([q] if q else []):
            for t, _ in f[1]:
                if t not in seen:
                    seen.add(t)
                    x = _terms[t]
                    if x[0] in NONNEG or (x[0] == 'ext' and x[1] == 'u') or (x[0] == 'ld' and x[2] == 'ptr') or \
                            (x[0] == 'a' and self.f.args[x[1]]['ty'] == 'ptr'):
                        out.append((0, ((t, 1),)))
        return out + list(self.base)

    def zero(self, s, l):
        l = self.norm(s, l)
        return self.entails(s, l) and self.entails(s, mul(l, -1))

    def norm(self, s, l):
        """rewrite with known equalities between pointer-like atoms"""
        m = [d for k, d in s.atoms if k == 'same']
        if not m:
            return l

        def rw(x):
            for a, b in m:
                if x == _terms[a]:
                    return (0, ((b, 1),))
            return None
        return simplify(mapl(l, rw, {}))

    def addfact(self, s, *ls):
        s = s.copy()
        s.facts = s.facts | frozenset(l for l in ls if not isc(l))
        for l in ls:
            if isc(l) and l[0] < 0:
                return None
        ts = [t for l in ls for t, _ in l[1]]
        if not feasible(component(self.all(s), ts)):
            return None
        return s

    def swap(self, l):
        n = self.half

        def rw(x):
            if x[0] == 'a':
                return lin(self.argterm(x[1] + n if x[1] < n else x[1] - n))
            return None
        return self.canon(mapl(l, rw, {}))

    def canon(self, l):
        """orient comparator terms: side-0 arguments first."""
        out = C(l[0])
        for t, c in l[1]:
            x = _terms[t]
            if x[0] in ('cc', 'mem'):
                if x[0] == 'cc':
                    h = len(x[2]) // 2
                    A, B = x[2][:h], x[2][h:]
                else:
                    A, B = (x[1],), (x[2],)
                if A == B:
                    continue
                if self.side(A) == 1 and self.side(B) == 0:
                    y = ('cc', x[1], B + A) if x[0] == 'cc' else ('mem', x[2], x[1], x[3])
                    out = add(out, mul(lin(y), -c))
                    continue
            out = add(out, (0, ((t, c),)))
        return out

    def side(self, ls):
        n = self.half
        s0 = any(has_term(l, lambda x: x[0] == 'a' and x[1] < n) for l in ls)
        s1 = any(has_term(l, lambda x: x[0] == 'a' and x[1] >= n) for l in ls)
        return None if s0 == s1 else 1 if s1 else 0

    def argterm(self, i):
        return ('a', i)

    def mirrored(self, D):
        if D[0] == 0 and len(D[1]) == 1 and self.half:
            x = _terms[D[1][0][0]]
            if x[0] == 'mem' and self.swap(x[1]) == x[2]:        # whatever the length: checked against the operands
                return True
        return bool(D[1]) and bool(self.half) and self.swap(D) == mul(D, -1)

    def split(self, s, D, ways):
        """States in which D is <0, =0, >0 (those of `ways` that are possible)."""
        D = self.norm(s, self.canon(D))
        out = []
        if isc(D):
            w = (D[0] > 0) - (D[0] < 0)
            return [(w, s)]
        extra = None
        if len(D[1]) == 1 and not D[0]:
            x = _terms[D[1][0][0]]
            if x[0] == 'cc':
                h = len(x[2]) // 2
                if all(self.zero(s, sub(a, b)) for a, b in zip(x[2][:h], x[2][h:])) or \
                        h == 2 and self.entails(s, mul(x[2][1], -1)) and self.entails(s, mul(x[2][3], -1)):
                    return [(0, s)]
                if h == 1 and self.intcc(x[1]):
                    extra = mul(sub(x[2][0], x[2][1]), 1 if D[1][0][1] > 0 else -1)
            if x[0] == 'mem' and (self.zero(s, sub(x[1], x[2])) or self.zero(s, x[3])):
                return [(0, s)]
            if x[0] == 'memmem':
                hit = sub(lin(x), x[1])
                out = []
                for w, ls in ((0, (D, mul(D, -1))), (1, (add(lin(x), C(-1)), hit))):
                    n = self.addfact(s, *ls)
                    if n is not None:
                        n.atoms = n.atoms | {('atom', lin(x))}
                        out.append((w if D[1][0][1] > 0 else -w, n))
                return out
        for w in (-1, 0, 1):
            ls = [D, mul(D, -1)] if w == 0 else [add(D, C(-1))] if w > 0 else [add(mul(D, -1), C(-1))]
            if extra is not None:
                ls += [extra, mul(extra, -1)] if w == 0 else [add(extra, C(-1))] if w > 0 else [add(mul(extra, -1), C(-1))]
            n = self.addfact(s, *ls)
            if n is None:
                continue
            # record what this split was about
            neg = D[1][0][1] < 0 and not self.mirrored(D)
            n.atoms = n.atoms | {('atom', D)}
            if w == 0 and len(D[1]) == 2 and D[0] == 0 and sorted(c for _, c in D[1]) == [-1, 1]:
                (ta, ca), (tb, cb) = D[1]
                if all(self.ptrlike(_terms[t]) for t in (ta, tb)):
                    a, b = (ta, tb) if ca < 0 else (tb, ta)
                    n.atoms = n.atoms | {('same', (a, b))}
            out.append((w, n))
        if len(out) > 1 and not self.mirrored(D) and not self.crossed(D) and not has_term(D, lambda x: x[0] == 'K'):
            for _, n in out:
                n.unary = True
        return out

    def crossed(self, D):
        """compares contents of one operand with something stored elsewhere in the other one"""
        if not self.half:
            return False
        sides = set()
        for t, c in D[1]:
            x = _terms[t]
            while x[0] == 'ext' and len(x[2][1]) == 1 and not x[2][0]:
                x = _terms[x[2][1][0][0]]
            if x[0] == 'ld':
                sides.add(self.side((lin(x),)))
            elif x[0] == 'cc':
                h = len(x[2]) // 2
                sides |= {self.side(x[2][:h]), self.side(x[2][h:])}
            else:
                return False
        L = (0, D[1])
        return sides == {0, 1} and self.swap(L) != mul(L, -1)

    def intcc(self, name):
        return re.search(r'\(int, int\)', self.ccs.get(name, ''))

    def ptrlike(self, x):
        return x[0] == 'data' or (x[0] == 'a' and self.f.args[x[1]]['ty'] == 'ptr')

    def decide(self, s, b):
        """[(truth, state)]"""
        b = self.asbool(b)
        k = b[0]
        if k == 'b':
            return [(b[1], s)]
        if k == 'not':
            return [(not t, n) for t, n in self.decide(s, b[1])]
        if k in ('and', 'or'):
            out = []
            for t, n in self.decide(s, b[1]):
                if t == (k == 'or'):
                    out.append((t, n))
                else:
                    out += self.decide(n, b[2])
            return out
        if k == 'xor':
            out = []
            for t, n in self.decide(s, b[1]):
                out += [(t != u, m) for u, m in self.decide(n, b[2])]
            return out
        if k == 'icmp':
            p, L, R = b[1], b[2], b[3]
            if p[0] == 'u':
                nl, nr = self.entails(s, L), self.entails(s, R)
                if nl and nr:
                    p = 's' + p[1:]
                elif nr or nl:
                    X, flip = (L, False) if nr else (R, True)
                    out = []
                    n = self.addfact(s, add(mul(X, -1), C(-1)))       # X < 0: larger than any size
                    if n is not None:
                        big = {'ult': False, 'ule': False, 'ugt': True, 'uge': True}[ir.SWAP[p] if flip else p]
                        out.append((big, n))
                    n = self.addfact(s, X)
                    if n is not None:
                        out += self.decide(n, ('icmp', 's' + p[1:], L, R))
                    return out
                else:
                    L, R, p = self.uns(L), self.uns(R), 's' + p[1:]
            if p in ('eq', 'ne') and self.unsigned_wide(L) and self.unsigned_wide(R) and not (self.entails(s, L) and self.entails(s, R)):
                L, R = self.uns(L), self.uns(R)
            D = sub(L, R)
            want = {'eq': (0,), 'ne': (-1, 1), 'slt': (-1,), 'sle': (-1, 0), 'sgt': (1,), 'sge': (0, 1)}[p]
            return [(w in want, n) for w, n in self.split(s, D, want)]
        raise Undecided('condition %r' % (k,))

    def unsigned_wide(self, l):
        """an integer operand that this function orders as unsigned"""
        if self.anyu is None:
            self.anyu = any(i.op == 'icmp' and i.pred[0] == 'u' for L in self.f.blocks for i in L)
        if not self.anyu or l[0] or len(l[1]) != 1 or l[1][0][1] != 1:
            return False
        x = _terms[l[1][0][0]]
        return x[0] == 'a' and self.f.args[x[1]]['ty'] in ('i32', 'i64') or x[0] == 'ld' and x[2] in ('i32', 'i64')

    anyu = None

    def uns(self, l):
        if isc(l):
            return l
        if all(_terms[t][0] == 'ext' and _terms[t][1] == 'u' for t, _ in l[1]):
            return l
        return lin(('ext', 'u', l))

    # -- execution
    def start(self):
        s = State()
        s.blk, s.pc, s.env, s.facts, s.atoms, s.pre, s.unary, s.steps, s.mems = 0, 0, {}, frozenset(), frozenset(), {}, False, 0, frozenset()
        for i, a in enumerate(self.f.args):
            s.env[a['id']] = lin(self.argterm(i))
            if a['ty'] == 'i1':
                s.facts = s.facts | {lin(self.argterm(i)), (1, ((T(self.argterm(i)), -1),))}
        return s

    def run(self):
        st = [self.start()]
        self.seen = set()
        while st:
            s = st.pop()
            self.work += 1
            if self.work > self.LIMIT:
                raise Undecided('too many cells')
            st += self.block(s)
        return self

    def goto(self, s, dst):
        f = self.f
        src = s.blk
        if dst in self.hdr and src in self.hdr[dst]:       # the sign of loop-carried results is decided here
            for p in f.blocks[dst]:
                if p.op != 'phi' or p.id in self.iv:
                    continue
                v = self.val(s, dict((b, v) for v, b in p.ops)[src])
                if is_lin(v) and self.hasK(v, dst) and not self.zero(s, v) and \
                        not self.entails(s, add(v, C(-1))) and not self.entails(s, add(mul(v, -1), C(-1))):
                    out = []
                    for _, n in self.split(s, v, (-1, 0, 1)):
                        out += self.goto(n, dst)
                    return out
        vals, n = {}, s.copy()
        for p in f.blocks[dst]:
            if p.op != 'phi':
                break
            vals[p.id] = dict((b, v) for v, b in p.ops)[src]
        vals = {k: self.val(s, v) for k, v in vals.items()}
        if dst in self.hdr:
            K = T(('K', dst))
            back = src in self.body[dst] and src in self.hdr[dst]
            if not back:
                self.ivinit = getattr(self, 'ivinit', {})
                n.pre[dst] = None
                # facts of an earlier run of the same loop
                n.facts = frozenset(x for x in n.facts if not self.hasK(x, dst))
                n.facts = n.facts | {(0, ((K, -1),))}
                for k, v in vals.items():
                    if k in self.iv:
                        n.env[('init', k)] = v
                        n.env[k] = add(v, mul(lin(('K', dst)), self.iv[k]))
                    else:
                        n.env[k] = v
            else:
                cur = set()
                for kind, D in s.atoms:
                    if kind == 'atom' and self.hasK(D, dst):
                        if self.zero(s, D):
                            cur.add(('z', D))
                        elif self.entails(s, add(D, C(-1))) or self.entails(s, add(mul(D, -1), C(-1))):
                            cur.add(('nz', D))
                for i, rel in (self.derive(s, dst) if self.derive else ()):
                    cur.add((rel, ('E', i)))
                old = s.pre.get(dst)
                hits = set()
                for kd, D in cur:
                    if D[0] != 'E' and kd == 'nz' and (old is None or ('z', D) in old or ('z', mul(D, -1)) in old):
                        hits.add(('hit', (D, 1 if self.entails(s, add(D, C(-1))) else -1)))
                n.pre[dst] = frozenset(cur if old is None else cur & old)
                for k, v in vals.items():
                    if k in self.iv:
                        n.env[k] = add(s.env[('init', k)], mul(lin(('K', dst)), self.iv[k]))
                    else:
                        self.carried = getattr(self, 'carried', {})
                        self.carried.setdefault(k, set()).add(v)
                        if len(self.carried[k]) > 60:
                            raise Undecided('loop-carried value')
                        if is_lin(v) and self.hasK(v, dst) or not is_lin(v):
                            if is_lin(v):
                                v = self.collapse(s, v, dst)
                            else:
                                raise Undecided('loop-carried condition')
                        n.env[k] = v
                n.facts = frozenset(x for x in s.facts if not self.hasK(x, dst)) | {(-1, ((K, 1),))}
                n.atoms = frozenset(x for x in s.atoms if not (x[0] == 'atom' and self.hasK(x[1], dst) or
                                                                     x[0] == 'same' and any(self.hasK((0, ((t, 1),)), dst) for t in x[1]))) | hits
                for k in [k for k, v in n.env.items() if k not in vals and isinstance(k, int) and self.inloop(k, dst)]:
                    del n.env[k]
        else:
            n.env.update(vals)
        n.blk, n.pc = dst, 0
        while n.pc < len(f.blocks[dst]) and f.blocks[dst][n.pc].op == 'phi':
            n.pc += 1
        if dst in self.hdr:
            key = (dst, n.facts, n.pre[dst], frozenset((k, v) for k, v in n.env.items() if k in vals),
                   frozenset(n.pre.items()), n.unary)
            if key in self.seen:
                return []
            self.seen.add(key)
        return [n]

    def collapse(self, s, v, h):
        """value of a loop-carried phi that depends on the current element: keep only its sign."""
        if self.zero(s, v):
            return C(0)
        if self.entails(s, add(v, C(-1))):
            return C(1)
        if self.entails(s, add(mul(v, -1), C(-1))):
            return C(-1)
        raise Undecided('loop-carried value')

    def inloop(self, v, h):
        i = self.f.inst.get(v)
        return i is not None and i.blk in self.body[h]

    def hasK(self, l, h):
        return has_term(l, lambda x: x[0] == 'K' and x[1] == h)

    def block(self, s):
        f = self.f
        L = f.blocks[s.blk]
        while True:
            i = L[s.pc]
            r = self.inst(s, i)
            if r is not None:
                return r
            s.pc += 1

    def inst(self, s, i):
        """None: executed in place; otherwise the list of successor states."""
        op, o = i.op, i.ops
        E = s.env
        if op == 'br':
            if i.d.get('t') is None:
                return self.goto(s, i.d['to'])
            out = []
            for t, n in self.decide(s, self.val(s, o[0])):
                out += self.goto(n, i.d['t'] if t else i.d['f'])
            return out
        if op == 'switch':
            out, L = [], self.val(s, o[0])
            rest = [s]
            for c, x in i.d['cases']:
                nr = []
                for r in rest:
                    for w, n in self.split(r, sub(L, C(c)), (0,)):
                        if w == 0:
                            out += self.goto(n, x)
                        else:
                            nr.append(n)
                rest = nr
            for r in rest:
                out += self.goto(r, i.d['def'])
            return out
        if op == 'ret':
            self.rets.append((s, self.val(s, o[0]) if o else None, i))
            return []
        if op == 'unreachable':
            return []
        if op == 'getelementptr':
            b = self.val(s, o[0])
            if i.d.get('off') is not None:
                E[i.id] = add(b, C(i.d['off']))
            elif len(o) == 2:
                E[i.id] = add(b, mul(self.val(s, o[1]), i.d['esz']))
            else:
                raise Undecided('address computation')
            return None
        if op == 'load':
            p = self.val(s, o[0])
            if has_term(p, lambda x: x[0] == 'alloca'):
                raise Undecided('local memory')
            E[i.id] = lin(('ld', p, i.ty))
            if i.ty == 'i1':
                E[i.id] = ('icmp', 'ne', E[i.id], C(0))
            return None
        if op == 'icmp':
            E[i.id] = ('icmp', i.pred, self.num(s, o[0]), self.num(s, o[1]))
            if any(x is None for x in E[i.id]):
                a, b = self.val(s, o[0]), self.val(s, o[1])
                x = ('xor', self.asbool(a), self.asbool(b))
                if i.pred == 'eq':
                    x = ('not', x)
                elif i.pred != 'ne':
                    raise Undecided('boolean order')
                E[i.id] = x
            return None
        if op in ('and', 'or', 'xor') and i.ty == 'i1':
            a, b = self.asbool(self.val(s, o[0])), self.asbool(self.val(s, o[1]))
            if op == 'xor' and b[0] == 'b':
                E[i.id] = ('not', a) if b[1] else a
            else:
                E[i.id] = (op, a, b)
            return None
        if op == 'select':
            out = []
            for t, n in self.decide(s, self.val(s, o[0])):
                n = n.copy()
                n.env[i.id] = self.val(s, o[1] if t else o[2])
                n.pc += 1
                out.append(n)
            return out
        if op in ('zext', 'sext') and ir.is_i1(self.f, o[0]):
            out = []
            for t, n in self.decide(s, self.val(s, o[0])):
                n = n.copy()
                n.env[i.id] = C((1 if op == 'zext' else -1) if t else 0)
                n.pc += 1
                out.append(n)
            return out
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            v = self.val(s, o[0])
            if not is_lin(v):
                E[i.id] = v
            elif op == 'zext' and not self.entails(s, v):
                E[i.id] = self.uns(v)
            elif op == 'trunc':
                if i.ty == 'i1':
                    E[i.id] = ('icmp', 'ne', v, C(0))
                elif isc(v) or all(_terms[t][0] in ('size', 'K', 'data', 'memmem') or
                                   _terms[t][0] == 'a' and self.f.args[_terms[t][1]]['ty'] in ('i32', 'ptr') for t, _ in v[1]) and i.ty == 'i32':
                    E[i.id] = v
                elif len(v[1]) == 1 and _terms[v[1][0][0]][0] == 'ext' and not v[0] and v[1][0][1] == 1:
                    E[i.id] = _terms[v[1][0][0]][2]
                else:
                    E[i.id] = lin(('trunc', i.ty, v))
            else:
                E[i.id] = v
            return None
        if op in ('add', 'sub'):
            E[i.id] = add(self.numx(s, o[0]), self.numx(s, o[1]), 1 if op == 'add' else -1)
            return None
        if op in ('mul', 'shl'):
            a, b = self.numx(s, o[0]), self.numx(s, o[1])
            if isc(b):
                E[i.id] = mul(a, b[0] if op == 'mul' else 1 << b[0])
            elif isc(a) and op == 'mul':
                E[i.id] = mul(b, a[0])
            else:
                E[i.id] = lin(('op', op, a, b))
            return None
        if op == 'sdiv' and ir.const(o[1]):
            a, k = self.numx(s, o[0]), ir.const(o[1])
            if a[0] % k == 0 and all(c % k == 0 for _, c in a[1]):
                E[i.id] = (a[0] // k, tuple((t, c // k) for t, c in a[1]))
            else:
                E[i.id] = lin(('op', op, a, C(k)))
            return None
        if op in ('ashr', 'lshr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.numx(s, o[0]), self.numx(s, o[1])
            if isc(a) and isc(b) and op in ('and', 'or', 'xor', 'ashr'):
                x, y = a[0], b[0]
                E[i.id] = C({'and': x & y, 'or': x | y, 'xor': x ^ y, 'ashr': x >> y if 0 <= y < 64 else 0}[op])
            elif op in ('or', 'xor') and C(0) in (a, b):
                E[i.id] = b if a == C(0) else a
            elif op == 'and' and C(0) in (a, b):
                E[i.id] = C(0)
            else:
                E[i.id] = lin(('op', op, a, b))
            return None
        if op == 'insertvalue':
            a = E.get(o[0]) if isinstance(o[0], int) else None
            a = dict(a[1]) if isinstance(a, tuple) and a and a[0] == 'agg' else {}
            a[tuple(i.d['idx'])] = self.val(s, o[1])
            E[i.id] = ('agg', a)
            return None
        if op == 'extractvalue':
            a = E.get(o[0])
            if not (isinstance(a, tuple) and a[0] == 'agg') or tuple(i.d['idx']) not in a[1]:
                raise Undecided('aggregate')
            E[i.id] = a[1][tuple(i.d['idx'])]
            return None
        if op == 'alloca':
            E[i.id] = lin(('alloca', i.id))
            return None
        if op in ('call', 'invoke'):
            return self.call(s, i)
        if op in ('fcmp', 'fadd', 'fsub'):
            raise Undecided('floating point')
        raise Undecided(op)

    def num(self, s, v):
        x = self.val(s, v)
        return x if is_lin(x) else C(int(x[1])) if x[0] == 'b' else None

    def numx(self, s, v):
        x = self.num(s, v)
        if x is None:
            raise Undecided('boolean arithmetic')
        return x

    def call(self, s, i):
        c, dem = i.callee or '', i.cdem or ''
        o = i.ops
        if c.startswith('llvm.') and not c.startswith('llvm.mem'):
            return None
        nxt = self.f.blocks[i.blk][i.pos + 1] if i.pos + 1 < len(self.f.blocks[i.blk]) else None
        if nxt is not None and nxt.op == 'unreachable':
            self.traps.append((s, i))
            return []
        r = None
        if c in ('memcmp', 'bcmp', 'memcmp_'):
            p, q, n = (self.numx(s, x) for x in o[:3])
            r = self.canon(lin(('mem', p, q, n))) if p != q else C(0)
            s.mems = s.mems | {(p, q, n, i.id)}
        elif c == 'memmem':
            r = lin(('memmem',) + tuple(self.numx(s, x) for x in o[:4]))
        elif re.match(r'x3Cx3E_', ir.unhash(re.sub(r'^_Z\d+', '', c)) or '') or re.search(r'\bx3Cx3E_\w+\(', dem):
            a = tuple(self.numx(s, x) for x in o)
            if len(a) % 2:
                raise Undecided('comparator arity')
            r = self.canon(simplify(lin(('cc', re.search(r'x3Cx3E_\w+', dem).group(0), a))))
        elif re.fullmatch(r'fu::(vec|view)<.*>::size\(\) const', dem):
            r = lin(('size', self.numx(s, o[0])))
        elif re.fullmatch(r'fu::(vec|view)<.*>::data\(\) const', dem):
            r = lin(('data', self.numx(s, o[0])))
        else:
            raise Undecided('call of ' + (dem or c or 'pointer'))
        s.env[i.id] = r
        if i.op == 'invoke':
            return self.goto(s, i.d['to'])
        return None


# ---------------------------------------------------------------- shapes of the operands
def split_args(dem):
    m = re.search(r'\((.*)\)[^()]*$', dem)
    s, out, d, cur = m.group(1), [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and not d:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


WIDTH = {'char': 1, 'unsigned char': 1, 'signed char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
         'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8, 'fu::i': 4, 'std::byte': 1, 'char8_t': 1}


class Shape:
    """kind: scalar | struct | view | vec; args: LLVM argument indices; elem: element type name."""

    def __init__(self, kind, args, ty, elem=None):
        self.kind, self.args, self.ty, self.elem = kind, args, ty, elem

    def __repr__(self):
        return '%s %s' % (self.kind, self.ty)


def shapes(f):
    """Operand shapes from the demangled signature, or None when it does not fit the LLVM arguments."""
    out, k = [], 0
    for t in split_args(f.dem):
        t = re.sub(r'\bconst\b', '', t)
        t = re.sub(r'\s+', ' ', t).strip()
        ref = t.endswith('&')
        t = t.rstrip('& ').strip()
        m = re.match(r'fu::view<(.*)>$', t)
        v = re.match(r'fu::vec<(.*)>$', t)
        if m and not ref:
            out.append(Shape('view', [k, k + 1], t, m.group(1).strip()))
            k += 2
        elif v or m:
            out.append(Shape('vec' if v else 'viewref', [k], t, (v or m).group(1).strip()))
            k += 1
        elif ref:
            out.append(Shape('struct', [k], t))
            k += 1
        else:
            out.append(Shape('scalar', [k], t))
            k += 1
    if k != len(f.args):
        return None
    return out


class Judge:
    """Rules at the returns of one function."""

    def __init__(self, P, ex, shp, width):
        self.P, self.ex, self.shp, self.width = P, ex, shp, width

    def A(self, i):
        return lin(self.ex.argterm(i))

    def seq(self, sh):
        """(data, size) of a sequence operand."""
        if sh.kind == 'view':
            return self.A(sh.args[0]), self.A(sh.args[1])
        p = self.A(sh.args[0])
        return lin(('data', p)), lin(('size', p))

    def w(self, elem):
        e = re.sub(r'^fu::str$', 'fu::vec<char>', elem)
        if e in WIDTH:
            return WIDTH[e]
        if e in self.width:
            return self.width[e]
        if e.endswith('*'):
            return 8
        m = re.match(r'fu::(vec|view)<', e)
        if m:
            return 16
        raise Undecided('width of ' + elem)

    def scalar_elem(self, elem):
        return elem in WIDTH or elem.endswith('*')

    LLTY = {1: ('i8',), 2: ('i16',), 4: ('i32', 'float'), 8: ('i64', 'ptr', 'double')}

    def elems(self, p, q, n, elem):
        """Possible forms of the comparison of elements number k: [(D, exact)] as function of index form."""
        w = self.w(elem)
        return w

    def match_elem(self, D, p, q, w, elem):
        """D compares elements at the same position of p and q: return the index form, else None.
        q None: compares elements of p with a fixed operand (see find)."""
        if len(D[1]) == 1:
            t, c = D[1][0]
            x = _terms[t]
            if x[0] == 'ext':
                return None
            if x[0] == 'cc' and abs(c) == 1 and not D[0]:
                h = len(x[2]) // 2
                A, B = x[2][:h], x[2][h:]
                return self.match_pair(A, B, p, q, w, elem)
            return None
        if len(D[1]) == 2 and not D[0]:
            (ta, ca), (tb, cb) = D[1]
            if sorted((ca, cb)) != [-1, 1]:
                return None
            a, b = (ta, tb) if ca > 0 else (tb, ta)
            xa, xb = self.unext(_terms[a]), self.unext(_terms[b])
            return self.match_pair((lin(xa),), (lin(xb),), p, q, w, elem)
        return None

    def unext(self, x):
        while x[0] == 'ext' and len(x[2][1]) == 1 and not x[2][0] and x[2][1][0][1] == 1:
            x = _terms[x[2][1][0][0]]
        return x

    def elem_index(self, a, p, w, elem):
        """operand tuple a is the element of p at some index: that index form."""
        if len(a) == 1 and self.scalar_elem(elem):
            if len(a[0][1]) == 1 and not a[0][0]:
                x = _terms[a[0][1][0][0]]
                if x[0] == 'ld' and x[2] in self.LLTY.get(w, ()):
                    d = sub(x[1], p)
                else:
                    return None
            else:
                return None
        elif len(a) == 1:                                  # reference to the element
            d = sub(a[0], p)
        elif len(a) == 2:                                  # element is itself a sequence: data/size of it
            if not re.match(r'fu::(str$|vec<|view<)', elem):
                return None
            x, y = (self.one(z) for z in a)
            if not x or not y:
                return None
            if x[0] == 'data' and y[0] == 'size' and x[1] == y[1]:
                d = sub(x[1], p)
            elif x[0] == 'ld' and y[0] == 'ld' and sub(y[1], x[1]) == C(8):
                d = sub(x[1], p)
            else:
                return None
        else:
            return None
        if d[0] % w or any(c % w for _, c in d[1]):
            return None
        if has_term(d, lambda x: x[0] in ('ld', 'data')):
            return None
        return (d[0] // w, tuple((t, c // w) for t, c in d[1]))

    def one(self, l):
        if len(l[1]) == 1 and not l[0] and l[1][0][1] == 1:
            return _terms[l[1][0][0]]
        return None

    def match_pair(self, A, B, p, q, w, elem):
        for X, Y in ((A, B), (B, A)):
            i = self.elem_index(X, p, w, elem)
            j = self.elem_index(Y, q, w, elem)
            if i is not None and i == j:
                return i
        return None

    def matched(self, D, cache, key, fn):
        k = (key, D)
        if k not in cache:
            cache[k] = fn(D)
        return cache[k]

    # elements that are themselves sequences, compared in place ----
    def nested(self, x, y):
        """callback: relation of elements of x (sequences) to the item y, as far as a path tells"""
        if not (re.match(r'fu::(str$|vec<|view<)', x.elem) and y.kind in ('view', 'vec', 'viewref')):
            return None
        p, _ = self.seq(x)
        q, m = self.seq(y)
        w = self.w(x.elem)
        me = re.match(r'fu::(?:vec|view)<(.*)>$', x.elem)
        elem = me.group(1) if me else 'char'

        def derive(s, h=None):
            out = []
            for i in self.indices(s, p, w, h):
                r = self.rel(s, add(p, mul(i, w)), x.elem, elem, q, m)
                if r:
                    out.append((i, r))
            return out
        return derive

    def indices(self, s, p, w, h):
        seen, out = set(), []

        def walk(l):
            for t, _ in l[1]:
                if t in seen:
                    continue
                seen.add(t)
                z = _terms[t]
                if z[0] in ('size', 'data'):
                    d = sub(z[1], p)
                    if not d[0] % w and not any(c % w for _, c in d[1]) and not has_term(d, lambda k: k[0] in ('ld', 'data', 'size')):
                        i = (d[0] // w, tuple((t2, c // w) for t2, c in d[1]))
                        if (h is None or self.ex.hasK(i, h)) and i not in out:
                            out.append(i)
                for e in z[1:]:
                    if is_lin(e):
                        walk(e)
                    elif isinstance(e, tuple):
                        for g in e:
                            if is_lin(g):
                                walk(g)
        for kind, D in s.atoms:
            if kind == 'atom':
                walk(D)
        return out

    def rel(self, s, e, ety, elem, q, m):
        ex = self.ex
        d, n = lin(('data', e)), lin(('size', e))
        if ety.startswith('fu::view<'):
            d, n = lin(('ld', e, 'ptr')), lin(('ld', add(e, C(8)), 'i32'))
        for kind, D in s.atoms:
            if kind != 'atom':
                continue
            nz = ex.entails(s, add(D, C(-1))) or ex.entails(s, add(mul(D, -1), C(-1)))
            z = self.one(D) or self.one(mul(D, -1))
            if z and z[0] == 'cc' and len(z[2]) == 4 and {z[2][:2], z[2][2:]} == {(d, n), (q, m)}:
                if nz:
                    return 'nz'
                if ex.zero(s, D):
                    return 'z'
            if nz:
                i = self.match_elem(D, d, q, self.w(elem), elem)
                if i is not None and ex.entails(s, i) and ex.entails(s, sub(sub(m, i), C(1))):
                    return 'nz'
            if nz and z and z[0] == 'mem' and self.flat(elem):
                for b, c in ((z[1], z[2]), (z[2], z[1])):
                    if ex.zero(s, sub(b, d)) and ex.zero(s, sub(c, q)) and ex.entails(s, sub(mul(m, self.w(elem)), z[3])):
                        return 'nz'
        D = sub(n, m)
        if ex.entails(s, add(D, C(-1))) or ex.entails(s, add(mul(D, -1), C(-1))):
            return 'nz'
        if ex.zero(s, D):
            h = ex.derive
            ex.derive = None
            ok = self.seq_zero(s, d, q, n, elem)
            ex.derive = h
            if ok:
                return 'z'
        return None

    # sequences --------------------------------------------------
    def seq_zero(self, s, p, q, n, elem):
        """elements [0,n) of p and q compared equal on this path."""
        ex, w = self.ex, self.w(elem)
        if ex.entails(s, mul(n, -1)):
            return True
        if ex.zero(s, sub(p, q)):
            return True
        for kind, D in s.atoms:
            if kind != 'atom':
                continue
            x = self.one(D) or self.one(mul(D, -1))
            if x and x[0] == 'cc' and len(x[2]) == 4 and ex.zero(s, D):
                (a, na, b, nb) = x[2]
                if {a, b} == {p, q} or (ex.zero(s, sub(a, p)) and ex.zero(s, sub(b, q))) or (ex.zero(s, sub(a, q)) and ex.zero(s, sub(b, p))):
                    if ex.entails(s, sub(na, n)) or ex.entails(s, sub(nb, n)):
                        return True
            if x and x[0] == 'mem' and ex.zero(s, D) and self.flat(elem):
                if (ex.zero(s, sub(x[1], p)) and ex.zero(s, sub(x[2], q))) or (ex.zero(s, sub(x[1], q)) and ex.zero(s, sub(x[2], p))):
                    if ex.entails(s, sub(x[3], mul(n, w))):
                        return True
        return self.all_elems(s, 'z', n, lambda D: self.match_elem(D, p, q, w, elem))

    def all_elems(self, s, what, n, match, lo=C(0)):
        """indices [lo, n) all satisfied `what` in some loop."""
        ex = self.ex
        for h, pre in s.pre.items():
            K = lin(('K', h))
            cands = pre
            if pre is None:
                if ex.entails(s, sub(lo, n)):
                    return True
                cands = set()
            cur = set()
            for kind, D in s.atoms:
                if kind == 'atom' and ex.hasK(D, h):
                    if what == 'z' and ex.zero(s, D):
                        cur.add((what, D))
                    elif what == 'nz' and (ex.entails(s, add(D, C(-1))) or ex.entails(s, add(mul(D, -1), C(-1)))):
                        cur.add((what, D))
            if what in ('z', 'nz') and self.ex.derive:
                for i, rel in self.ex.derive(s, h):
                    if rel == what:
                        cur.add((rel, ('E', i)))
            for kd, D in set(cands) | (cur if pre is None else (cur & set(cands)) or set()) | set(cands):
                if kd != what:
                    continue
                i = D[1] if D[0] == 'E' else match(D)
                if i is None:
                    continue
                done = add(K, C(1)) if (what, D) in cur else K
                up = sub(i, K)
                dn = add(i, K)
                if not ex.hasK(up, h):              # i = c + K: covers [c, c+done)
                    if ex.entails(s, sub(lo, up)) and ex.entails(s, sub(add(up, done), n)):
                        return True
                elif not ex.hasK(dn, h):            # i = c - K: covers (c-done, c]
                    if ex.entails(s, sub(lo, add(sub(dn, done), C(1)))) and ex.entails(s, sub(add(dn, C(1)), n)):
                        return True
        # finitely many single elements: [lo, n) of length <= 1
        for kind, D in s.atoms:
            if kind != 'atom':
                continue
            ok = ex.zero(s, D) if what == 'z' else (ex.entails(s, add(D, C(-1))) or ex.entails(s, add(mul(D, -1), C(-1))))
            if not ok:
                continue
            i = match(D)
            if i is not None and ex.entails(s, sub(lo, i)) and ex.entails(s, sub(add(i, C(1)), n)):
                return True
        return ex.entails(s, sub(lo, n))

    def flat(self, elem):
        return elem in ('char', 'unsigned char', 'signed char', 'bool', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'std::byte') or elem.endswith('*')

    # structures --------------------------------------------------
    def fields(self, ty):
        d = self.P.structs.get(ty)
        if d is None:
            raise Undecided('layout of ' + ty)
        return d['fields'], d['size']

    def leaf_zero(self, s, a, b, ty, depth=0):
        """everything in the two objects of type ty at a, b compared equal; else name of what was not."""
        ex = self.ex
        if ex.zero(s, sub(a, b)):
            return None
        for kind, D in s.atoms:
            if kind == 'atom' and ex.zero(s, D):
                x = self.one(D) or self.one(mul(D, -1))
                if x and x[0] == 'cc' and len(x[2]) == 2 and set(x[2]) == {a, b} and self.cc_type(x[1]) in (ty, None):
                    return None
        if re.match(r'fu::(str$|vec<|view<)|^str$|^vec<|^view<', ty):
            m = re.match(r'(?:fu::)?(?:vec|view)<(.*)>$', ty)
            elem = m.group(1) if m else 'char'
            vec = not re.match(r'(fu::)?view<', ty)
            pa, na = (lin(('data', a)), lin(('size', a))) if vec else (lin(('ld', a, 'ptr')), lin(('ld', add(a, C(8)), 'i32')))
            pb, nb = (lin(('data', b)), lin(('size', b))) if vec else (lin(('ld', b, 'ptr')), lin(('ld', add(b, C(8)), 'i32')))
            for kind, D in s.atoms:
                if kind == 'atom' and ex.zero(s, D):
                    x = self.one(D) or self.one(mul(D, -1))
                    if x and x[0] == 'cc' and len(x[2]) == 4 and set((x[2][:2], x[2][2:])) == {(pa, na), (pb, nb)}:
                        return None
            if ex.zero(s, sub(na, nb)) and self.seq_zero(s, pa, pb, na, elem):
                return None
            return 'the sequence'
        fs, size = self.fields(ty)
        for n, off, sz, tn in fs:
            p, q = add(a, C(off)), add(b, C(off))
            if self.scalar_zero(s, p, q, sz):
                continue
            t = tn if tn in self.P.structs else 'fu::' + tn if 'fu::' + tn in self.P.structs else tn
            if re.match(r'(fu::)?(str$|vec<|view<)', t) or (t in self.P.structs and depth < 6):
                r = self.leaf_zero(s, p, q, t, depth + 1)
                if r is None:
                    continue
                return n if r == 'the sequence' else '%s.%s' % (n, r)
            return n
        return None

    def scalar_zero(self, s, p, q, sz):
        for ty in self.LLTY.get(sz, ()) + (('i1',) if sz == 1 else ()):
            if self.ex.zero(s, sub(lin(('ld', p, ty)), lin(('ld', q, ty)))):
                return True
            u, v = self.ex.uns(lin(('ld', p, ty))), self.ex.uns(lin(('ld', q, ty)))
            if self.ex.zero(s, sub(u, v)):
                return True
            for kind, D in s.atoms:
                if kind == 'atom' and self.ex.zero(s, D):
                    x = self.one(D) or self.one(mul(D, -1))
                    if x and x[0] == 'cc' and len(x[2]) == 2 and {x[2][0], x[2][1]} == {lin(('ld', p, ty)), lin(('ld', q, ty))}:
                        return True
        return False

    def cc_type(self, name):
        f = self.ccs.get(name)
        if f is None:
            return None
        a = re.sub(r'\bconst\b|&', '', split_args(f)[0])
        return re.sub(r'\s+', ' ', a).strip()

    # operands --------------------------------------------------
    def equal(self, s):
        """None if this path has established that both operands are identical, else what is missing."""
        ex, (x, y) = self.ex, self.shp[:2]
        if x.kind == 'scalar':
            a, b = self.A(x.args[0]), self.A(y.args[0])
            return None if ex.zero(s, sub(a, b)) or ex.zero(s, sub(ex.uns(a), ex.uns(b))) else 'the values'
        if x.kind == 'struct':
            return self.leaf_zero(s, self.A(x.args[0]), self.A(y.args[0]), x.ty)
        (p, n), (q, m) = self.seq(x), self.seq(y)
        for kind, D in s.atoms:
            if kind == 'atom' and ex.zero(s, D):
                z = self.one(D) or self.one(mul(D, -1))
                if z and z[0] == 'cc' and len(z[2]) == 4 and {z[2][:2], z[2][2:]} == {(p, n), (q, m)}:
                    return None
        if x.kind in ('vec', 'viewref') and ex.zero(s, sub(self.A(x.args[0]), self.A(y.args[0]))):
            return None
        if not ex.zero(s, sub(n, m)):
            return 'the lengths'
        return None if self.seq_zero(s, p, q, n, x.elem) else 'the elements'

    def signs(self, s):
        """{atom key: -1|0|+1} for the mirrored comparisons decided on this path."""
        out, ex = {}, self.ex
        for kind, D in s.atoms:
            if kind != 'atom' or not ex.mirrored(D):
                continue
            E0, D = D, self.orient(D)
            if D != E0 and D != mul(E0, -1):                    # memcmp, oriented by canon()
                D0, D = D, E0 if E0[1][0][1] > 0 else mul(E0, -1)
            else:
                D0 = D
            z = 0 if ex.zero(s, D) else 1 if ex.entails(s, add(D, C(-1))) else -1 if ex.entails(s, add(mul(D, -1), C(-1))) else None
            if z is None:
                continue
            h = next((h for h in ex.hdr if ex.hasK(D, h)), None)
            if h is not None:
                pre = s.pre.get(h)
                if pre is not None and ('z', D) not in pre and ('z', mul(D, -1)) not in pre:
                    if z:
                        out[('bad', D)] = 1
                    continue
                if z == 0:
                    continue
            out[D0] = z
        for kind, x in s.atoms:
            if kind == 'hit' and ex.mirrored(x[0]):
                O = self.orient(x[0])
                out[O] = x[1] if O == x[0] else -x[1]
        for h, pre in s.pre.items():
            for kd, D in pre or ():
                if kd == 'z' and D[0] != 'E' and ex.mirrored(D):
                    out.setdefault(self.orient(D), 0)
        return out

    def orient(self, D):
        for t, c in D[1]:
            sd = self.ex.side((((0, ((t, 1),))),))
            x = _terms[t]
            if x[0] == 'mem':
                return mul(lin(('memk', x[1], x[2])), 1)
            if x[0] == 'cc':
                return D if c > 0 else mul(D, -1)
            if sd == 0:
                return D if c > 0 else mul(D, -1)
        return D

    def content(self, D):
        """a difference in D is a difference of the operands (not of addresses)."""
        for t, c in D[1]:
            x = self.unext(_terms[t])
            if x[0] in ('ld', 'size', 'cc', 'mem', 'memk'):
                continue
            if x[0] == 'a':
                for sh in self.shp:
                    if x[1] in sh.args and (sh.kind == 'scalar' or (sh.kind == 'view' and x[1] == sh.args[1])):
                        break
                else:
                    return False
                continue
            return False
        return True


KINDS = [(r'x3Cx3E_\w+', 'cmp'), (r'operator==', 'eq'), (r'operator!=', 'ne'), (r'operator<=', 'le'), (r'operator>=', 'ge'),
         (r'operator<', 'lt'), (r'operator>', 'gt'), (r'strcmp', 'cmp'), (r'starts_\w{8}', 'starts'), (r'ends_\w{8}', 'ends'),
         (r'find_\w{8}', 'find'), (r'has_\w{8}', 'has'), (r'l?find', 'find'), (r'has', 'has'), (r'starts', 'starts'), (r'ends', 'ends')]


HKINDS = [(k + r'[A-Z]\w*', k) for k in ('eq', 'ne', 'lt', 'gt', 'le', 'ge', 'find', 'has', 'starts')]


def kind_of(f, table=KINDS):
    b = f.base
    for rx, k in table:
        if re.fullmatch(rx, b):
            return k
    return None


def fn_key(f, P, ccs):
    """identity of the code, without source positions"""
    import hashlib, json
    def strip(x):
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items() if k not in ('loc', 's', 'g') or (k == 'g' and not str(v).startswith('.str'))}
        if isinstance(x, list):
            return [strip(y) for y in x]
        return x
    return hashlib.sha256(json.dumps([f.dem, f.args, strip(f.d['blocks'])], sort_keys=True).encode()).hexdigest()


class Verdict:
    def __init__(self):
        self.bad, self.und, self.paths, self.cells, self.atoms = [], None, 0, 0, 0


def judge(P, f, kind, widths, ccs):
    V = Verdict()
    shp = shapes(f)
    if shp is None or len(shp) < 2:
        V.und = 'signature'
        return V
    x, y = shp[0], shp[1]
    sym = kind in ('cmp', 'eq', 'ne', 'lt', 'gt', 'le', 'ge')
    if sym and (len(shp) != 2 and not (f.base == 'strcmp' and len(shp) == 4)):
        V.und = 'signature'
        return V
    if f.base == 'strcmp' and len(shp) == 4:
        shp = [Shape('view', [0, 1], 'view', 'std::byte'), Shape('view', [2, 3], 'view', 'std::byte')]
        x, y = shp
    if sym and (len(x.args) != len(y.args) or x.kind == 'struct' and x.ty != y.ty):
        V.und = 'operands of different shape'
        return V
    half = len(x.args) if sym else 0
    if not sym:
        half = 0
    ex = Exec(f, half, ())
    ex.base = {lin(ex.argterm(sh.args[1])) for sh in shp if sh.kind == 'view'}
    J = Judge(P, ex, shp, widths)
    J.ccs = ex.ccs = ccs
    try:
        if not sym and x.kind in ('view', 'vec', 'viewref'):
            ex.derive = J.nested(x, y)
        ex.run()
        V.paths, V.cells = len(ex.rets), ex.work
        if sym:
            symmetric(V, J, ex, kind, shp)
        else:
            search(V, J, ex, kind, shp)
    except Undecided as e:
        V.und = str(e)
    return V


def truth(ex, s, v):
    return ex.decide(s, v)


def split3(ex, s, v):
    if isc(v):
        return [((v[0] > 0) - (v[0] < 0), s)]
    return ex.split(s, v, (-1, 0, 1))


def narrow(x, J):
    if x[0] == 'size':
        return True
    if x[0] == 'ext':
        y = J.unext(x)
        return y[0] == 'ld' and y[2] in ('i8', 'i16', 'i1') or y[0] == 'a' and J.ex.f.args[y[1]]['ty'] in ('i8', 'i16', 'i1')
    if x[0] == 'ld':
        return x[2] in ('i8', 'i16', 'i1')
    if x[0] == 'a':
        return J.ex.f.args[x[1]]['ty'] in ('i8', 'i16', 'i1') or any(sh.kind == 'view' and x[1] == sh.args[1] for sh in J.shp)
    return x[0] in ('cc', 'mem')


def symmetric(V, J, ex, kind, shp):
    P = []                   # (signs, wanted sign, state, inst)
    for s, i in ex.traps:
        V.bad.append(('trap', i.where(), 'an operand is accessed out of its bounds on this path (%s)' % cell(s, J)))
    for s0, v, i in ex.rets:
        cases = []
        if kind == 'cmp':
            if not is_lin(v):
                raise Undecided('result')
            if not isc(v) and len(v[1]) > 1 and not all(narrow(_terms[t], J) for t, _ in v[1]):
                V.bad.append(('overflow', i.where(), 'the result is the difference %s, which overflows for distant values and then has the wrong sign' % show(v)))
            for w, s in split3(ex, s0, v):
                cases.append((w, s))
        else:
            for t, s in truth(ex, s0, v if not is_lin(v) else ('icmp', 'ne', v, C(0))):
                if kind in ('eq', 'ne'):
                    cases.append((0 if t == (kind == 'eq') else 2, s))
                else:
                    want = {'lt': (-1, (0, 1)), 'gt': (1, (0, -1)), 'le': ((0, -1), 1), 'ge': ((0, 1), -1)}[kind][0 if t else 1]
                    if isinstance(want, tuple):
                        cases.append((0 if J.equal(s) is None else want[1], s))
                    else:
                        cases.append((want, s))
        for w, s in cases:
            oob(V, J, ex, s)
            if w == 0:
                miss = J.equal(s)
                if miss is not None:
                    if shp[0].kind == 'struct' and unknown_layout(J, miss):
                        raise Undecided(miss)
                    V.bad.append(('equal', '%s of %s' % (miss, ir.unhash(ex.f.base)), 'reports the operands as equal although %s may differ: %s (%s)' % (miss, cell(s, J), i.where())))
                continue
            sg = J.signs(s)
            nz = {D: z for D, z in sg.items() if D != 'bad' and not isinstance(D[0], str) and z and J.content(D)}
            if w == 2:
                if not nz:
                    if s.unary or not any_content(s, J, ex):
                        if s.unary:
                            raise Undecided('asymmetric test')
                    V.bad.append(('unequal', ir.unhash(ex.f.base), 'reports the operands as different without having found a difference: %s (%s)' % (cell(s, J), i.where())))
                continue
            P.append((sg, w, s, i))
    # lexicographic order of the atoms
    rest = list(P)
    while rest:
        cand = set()
        for sg, w, s, i in rest:
            cand |= {D for D in sg if not isinstance(D[0], str)}
        pick = None
        for D in sorted(cand):
            if not J.content(D):
                continue
            if all(D in sg and (sg[D] == 0 or sg[D] == w) for sg, w, s, i in rest) and any(sg[D] for sg, w, s, i in rest):
                pick = D
                break
        if pick is None:
            sg, w, s, i = rest[0]
            if any(p[2].unary for p in rest):
                raise Undecided('asymmetric test')
            # pick the most telling path: one whose single nonzero atom contradicts the result
            for p in rest:
                nzs = [D for D, z in p[0].items() if z and z == p[1]]
                if not nzs:
                    sg, w, s, i = p
                    break
            V.bad.append(('order', ir.unhash(ex.f.base), 'the sign of the result is not decided by a first difference in a fixed order: returns %s when %s (%s)' % (
                {1: '> 0', -1: '< 0'}[w], cell(s, J), i.where())))
            break
        V.atoms += 1
        rest = [p for p in rest if p[0][pick] == 0]


def unknown_layout(J, miss):
    return False


def any_content(s, J, ex):
    return any(k == 'atom' and ex.mirrored(D) for k, D in s.atoms)


def oob(V, J, ex, s):
    sq = []
    for sh in J.shp:
        if sh.kind in ('view', 'vec', 'viewref'):
            sq.append((J.seq(sh), J.w(sh.elem) if sh.elem != 'std::byte' else 1))
    for p, q, n, iid in s.mems:
        for b in (p, q):
            for (d, m), w in sq:
                off = sub(b, d)
                if isc(off) or not has_term(off, lambda x: x[0] in ('data',) or x[0] == 'a' and ex.f.args[x[1]]['ty'] == 'ptr'):
                    if not ex.entails(s, sub(mul(m, w), add(off, n))):
                        V.bad.append(('memcmp', ir.unhash(ex.f.base), 'memcmp reads %s bytes at %s of an operand of %s bytes: %s (%s)' % (
                            show(n), show(off), show(mul(m, w)), cell(s, J), ex.f.inst[iid].where())))
                    break


def cell(s, J):
    ex, out = J.ex, []
    for kind, D in sorted(s.atoms, key=lambda x: x[0]):
        if kind == 'atom':
            z = '= 0' if ex.zero(s, D) else '> 0' if ex.entails(s, add(D, C(-1))) else '< 0' if ex.entails(s, add(mul(D, -1), C(-1))) else '?'
            if z != '?':
                out.append('%s %s' % (show(D), z))
    return '; '.join(sorted(out)[:8]) or 'always'


# ---------------------------------------------------------------- searching
def search(V, J, ex, kind, shp):
    x, y = shp[0], shp[1]
    if x.kind not in ('view', 'vec', 'viewref'):
        V.und = 'not a sequence'
        return
    p, n = J.seq(x)
    same_seq = y.kind in ('view', 'vec', 'viewref') and not (kind in ('find', 'has') and re.match(r'fu::(str$|vec<|view<)', x.elem)) and \
        not re.match(r'fu::(str$|vec<|view<)', x.elem)
    if len(shp) > 4 or any(z.ty != 'int' for z in shp[2:]):
        V.und = 'signature'
        return
    start = J.A(shp[2].args[0]) if len(shp) > 2 else None
    end = J.A(shp[3].args[0]) if len(shp) > 3 else None
    if not (start is not None):
        for s, i in ex.traps:
            V.bad.append(('trap', ir.unhash(ex.f.base), 'an operand is accessed out of its bounds on this path (%s; %s)' % (cell(s, J), i.where())))
    if same_seq:
        q, m = J.seq(y)
        w = J.w(x.elem)

    def elem_match(D):
        """D compares element i of the sequence with the item: i"""
        ys = [J.A(a) for a in y.args]
        if len(D[1]) == 1 and not D[0]:
            xx = _terms[D[1][0][0]]
            if xx[0] != 'cc':
                return None
            h = len(xx[2]) // 2
            for A, B in ((xx[2][:h], xx[2][h:]), (xx[2][h:], xx[2][:h])):
                i = J.elem_index(A, p, J.w(x.elem), x.elem)
                if i is not None and same_item(B, y, ys):
                    return i
            return None
        if len(D[1]) == 2 and not D[0]:
            (ta, ca), (tb, cb) = D[1]
            if sorted((ca, cb)) != [-1, 1]:
                return None
            for a, b in ((ta, tb), (tb, ta)):
                i = J.elem_index((lin(J.unext(_terms[a])),), p, J.w(x.elem), x.elem)
                if i is not None and same_item((lin(J.unext(_terms[b])),), y, ys):
                    return i
        return None

    def same_item(B, y, ys):
        if y.kind == 'vec':
            return tuple(B) == (lin(('data', ys[0])), lin(('size', ys[0])))
        return tuple(B) == tuple(ys)

    def bounds(s):
        """(lo, hi) range that has to be searched, under the facts of the path."""
        lo = C(0)
        if start is not None:
            if ex.entails(s, start):
                lo = start
            elif ex.entails(s, mul(start, -1)):
                lo = C(0)
            else:
                return None
        return lo

    def absent(s):
        lo = bounds(s)
        if lo is None:
            return False
        return J.all_elems(s, 'nz', n, elem_match, lo)

    def first_at(s, v):
        lo = bounds(s)
        if lo is None:
            return 'the start'
        if not (ex.entails(s, sub(v, lo)) and ex.entails(s, sub(sub(n, v), C(1)))):
            return 'a position outside the searched range'
        hit = False
        for k, D in s.atoms:
            if k == 'atom' and ex.zero(s, D):
                i = elem_match(D)
                if i is not None and ex.zero(s, sub(i, v)):
                    hit = True
        for i, r in (ex.derive(s) if ex.derive else ()):
            if r == 'z' and ex.zero(s, sub(i, v)):
                hit = True
        if not hit:
            return 'a position whose element was not found equal to the item'
        if not J.all_elems(s, 'nz', v, elem_match, lo):
            return 'a position although earlier ones may match'
        return None

    def prefix_eq(s, off):
        """None/True/False: y occurs in x at off."""
        if same_seq:
            if J.seq_zero(s, add(p, mul(off, w)), q, m, x.elem) and ex.entails(s, sub(sub(n, m), C(0))):
                return True
            if ex.entails(s, sub(m, add(n, C(1)))):
                return False
            if J_differs(s, off):
                return False
            return None
        if ex.entails(s, add(n, C(-1))):
            for k, D in s.atoms:
                if k != 'atom':
                    continue
                i = elem_match(D)
                if i is not None and ex.zero(s, sub(i, off)):
                    return True if ex.zero(s, D) else False
            return None
        if ex.entails(s, mul(n, -1)):
            return False
        return None

    def J_differs(s, off):
        a = add(p, mul(off, w))
        for k, D in s.atoms:
            if k != 'atom' or ex.zero(s, D) or not (ex.entails(s, add(D, C(-1))) or ex.entails(s, add(mul(D, -1), C(-1)))):
                continue
            z = J.one(D) or J.one(mul(D, -1))
            if z and z[0] == 'cc' and len(z[2]) == 4:
                (b, nb, c, nc) = z[2]
                for (b, nb, c, nc) in ((b, nb, c, nc), (c, nc, b, nb)):
                    if ex.zero(s, sub(b, a)) and ex.zero(s, sub(c, q)) and ex.zero(s, sub(nb, m)) and ex.zero(s, sub(nc, m)):
                        return True
            if z and z[0] == 'mem' and J.flat(x.elem):
                for b, c in ((z[1], z[2]), (z[2], z[1])):
                    if ex.zero(s, sub(b, a)) and ex.zero(s, sub(c, q)) and ex.entails(s, sub(mul(m, w), z[3])):
                        return True
            i = J.match_elem(D, a, q, w, x.elem)
            if i is not None and ex.entails(s, i) and ex.entails(s, sub(sub(m, i), C(1))):
                return True
        return False

    for s0, v, i in ex.rets:
        if kind in ('starts', 'ends', 'has'):
            for t, s in truth(ex, s0, v if not is_lin(v) else ('icmp', 'ne', v, C(0))):
                if kind == 'has':
                    if same_seq:
                        memfind(V, J, ex, s, None, i, p, n, y, None, t)
                        continue
                    if t:
                        ok = any(k == 'atom' and ex.zero(s, D) and (lambda j: j is not None and ex.entails(s, j) and ex.entails(s, sub(sub(n, j), C(1))))(elem_match(D))
                                 for k, D in s.atoms) or \
                            any(r == 'z' and ex.entails(s, j) and ex.entails(s, sub(sub(n, j), C(1))) for j, r in (ex.derive(s) if ex.derive else ()))
                    else:
                        ok = absent(s)
                else:
                    off = C(0) if kind == 'starts' else sub(n, m if same_seq else C(1))
                    ok = prefix_eq(s, off) is t
                if not ok:
                    V.bad.append(('search', ir.unhash(ex.f.base), 'returns %s when %s (%s)' % ('true' if t else 'false', cell(s, J), i.where())))
        else:
            if not is_lin(v):
                raise Undecided('result')
            if has_term(v, lambda z: z[0] == 'memmem') or any(k == 'atom' and has_term(D, lambda z: z[0] == 'memmem') for k, D in s0.atoms):
                memfind(V, J, ex, s0, v, i, p, n if end is None else end, y, start)
                continue
            if same_seq and y.kind != 'scalar':
                lo, hi = start if start is not None else C(0), n if end is None else end
                if any(k == 'atom' and has_term(D, lambda z: z[0] in ('ld', 'cc', 'mem')) for k, D in s0.atoms):
                    raise Undecided('substring search')
                room = sub(sub(hi, lo), m)                      # nothing is known of the contents here
                if v == C(-1):
                    if not ex.entails(s0, sub(C(-1), room)):
                        V.bad.append(('search', ir.unhash(ex.f.base), 'returns -1 without searching although the item may fit: %s (%s)' % (cell(s0, J), i.where())))
                elif not ex.entails(s0, mul(m, -1)):
                    V.bad.append(('search', ir.unhash(ex.f.base), 'returns %s without searching: %s (%s)' % (show(v), cell(s0, J), i.where())))
                continue
            if same_seq or end is not None:
                raise Undecided('substring search')
            if v == C(-1):
                if not absent(s0):
                    V.bad.append(('search', ir.unhash(ex.f.base), 'returns -1 although an element may match: %s (%s)' % (cell(s0, J), i.where())))
            else:
                r = first_at(s0, v)
                if r:
                    V.bad.append(('search', ir.unhash(ex.f.base), 'returns %s: %s (%s)' % (r, cell(s0, J), i.where())))


def memfind(V, J, ex, s, v, i, p, n, y, start, found=None):
    q, m = J.seq(y) if y.kind != 'scalar' else (None, None)
    if q is None:
        raise Undecided('signature')
    w = J.w(J.shp[0].elem)
    lo = start if start is not None else C(0)
    seen = []
    if v is not None:
        has_term(v, lambda z: z[0] == 'memmem' and seen.append(z))
    for k, D in s.atoms:
        if k == 'atom':
            has_term(D, lambda z: z[0] == 'memmem' and seen.append(z))
    if len(set(seen)) != 1:
        raise Undecided('search result')
    mm = seen[0]
    args = (add(p, mul(lo, w)), mul(sub(n, lo), w), q, mul(m, w))
    for a, b, what in zip(mm[1:], args, ('start', 'length', 'needle', 'needle length')):
        if not ex.zero(s, sub(a, b)):
            V.bad.append(('search', ir.unhash(ex.f.base), 'searches with %s %s instead of %s (%s)' % (what, show(a), show(b), i.where())))
    t = lin(mm)
    if found is not None:
        if ex.zero(s, t) == found:
            V.bad.append(('search', ir.unhash(ex.f.base), 'returns %s when %s (%s)' % (found, cell(s, J), i.where())))
        return
    for hit, s in ex.split(s, t, (0, 1)):
        want = sub(t, p) if hit else C(-1)
        if w != 1 and hit:
            raise Undecided('wide search')
        if ex.zero(s, sub(v, want)):
            continue
        V.bad.append(('search', ir.unhash(ex.f.base), 'returns %s instead of %s (%s)' % (show(v), show(want), i.where())))


# ---------------------------------------------------------------- driver
ROOT = r'^(x3Cx3E_\w{4,}|(starts|ends|find|has)_\w{8}|operator(==|!=|<|>|<=|>=))[(]'
HROOT = r'^(eq|ne|lt|gt|le|ge|find|has|starts)[A-Z]\w*[(]'


def load(bc, harness):
    P = ir.load([bc], ['-inline', '-root', HROOT if harness else ROOT, '-keepfile', r'/include/fu/.*\bvec\.h',
                       '-keepbase', r'x3Cx3E_\w*', '-passes', 'function(sroa,early-cse)'])
    ccs = {}
    for f in P.fns.values():
        m = re.search(r'x3Cx3E_\w+', f.dem)
        if m:
            ccs[m.group(0)] = f.dem
    widths = {n: d['size'] for n, d in P.structs.items()}
    return P, ccs, widths


def analyse(bc, memo, harness=False, only=None):
    P, ccs, widths = load(bc, harness)
    for f in P.fns.values():
        if not f.blocks or not f.name.endswith('.inl'):
            continue
        kind = kind_of(f, HKINDS if harness else KINDS)
        if kind is None or only and not re.search(only, f.dem):
            continue
        key = fn_key(f, P, ccs)
        if key not in memo:
            memo[key] = judge(P, f, kind, widths, ccs)
        yield f, kind, memo[key]


def unity():
    """modules of the committed bootstrap compiler, from its unity file"""
    import os
    out, seen = [], set()
    u = os.path.join(env.REPO, 'src/cli.fu.unity.cpp')
    for m in re.finditer(r'#include\s+"([^"]+)\.fu\.cpp"', open(u).read()):
        p = os.path.relpath(os.path.normpath(os.path.join(env.REPO, 'src', m.group(1))), env.REPO)
        if p not in seen and not p.endswith('.unity'):
            seen.add(p)
            out.append(p)
    return out


RULE = {
    'cmp': 'a three-way comparator returns 0 only when every field / both lengths and every element were found equal, and otherwise the sign of the first difference in one fixed order; no overflowing difference',
    'eq': '== is true exactly when lengths and all elements (fields) were found equal; false only after a difference was found; memcmp stays within both operands',
    'ne': '!= is the negation of ==',
    'ord': '<, >, <=, >= follow the sign of the first differing byte, then of the lengths',
    'search': 'find returns the first matching position or -1 after comparing every position; has / starts / ends are true exactly when the match was found; substring search is memmem over exactly the requested range',
}


def run(ctx):
    import os
    memo = {}
    mods = unity()
    bcs = env.snapshot_bc(*mods, defs=env.RAW)
    L = [(bcs[m], False, m) for m in mods] + [(env.native_bc(env.VERIF + '/harness/rt_cmp.cpp', defs=env.RAW), True, 'include')]
    for bc, h, where in L:
        for f, kind, V in analyse(bc, memo, h):
            rk = 'search' if kind in ('find', 'has', 'starts', 'ends') else 'ord' if kind in ('lt', 'gt', 'le', 'ge') else kind
            ctx.rule(RULE[rk])
            name = re.sub(r'_(\w{8}|\w{4})\(', '(', f.dem)
            ctx.count('comparators seen' if rk == 'cmp' else 'others seen')
            if h:
                ctx.count('runtime instances')
            if V.und and not V.bad:
                ctx.count('undecided')
                ctx.sample('undecided: %s: %s' % (name, V.und))
                continue
            if V.und:
                ctx.count('undecided')
                continue
            ctx.fn(where + ':' + f.dem)
            ctx.count('functions: ' + rk)
            ctx.count('paths', V.paths)
            ctx.count('cells', V.cells)
            if kind == 'cmp' and 'struct' == shapes(f)[0].kind:
                ctx.sample('%s: lexicographic over %d comparisons, %d paths' % (name, V.atoms, V.paths))
            for what, where2, text in V.bad:
                ctx.violation('%s:%s:%s' % (what, ir.short(f.file), name), '%s %s' % (name, text))
    ctx.need('comparators seen', 20)
    ctx.need('runtime instances', 12)
