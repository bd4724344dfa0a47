"""Sorted sets and maps: the binary searches and what is done at the position they find.

The sequence searched is uninterpreted and assumed ascending.  A search loop is a header with two integer
phis; for each template of what they mean (half-open, closed, start+length; strict or lower-bound) the
invariant `0 <= lo <= H <= n, everything before lo is less than the item, everything from H on is greater`
is assumed at the header and proved on entry and on every back edge, with the signs of the comparator's
results as the only facts about elements.  Every return is then judged: a hit needs an element found equal,
a miss needs lo >= H; insertions, removals, results must use exactly that position."""
import re
from . import ir, env
from .seqcmp import (T, lin, C, add, sub, mul, isc, is_lin, has_term, show, _terms, Undecided, Exec, Shape, shapes, Judge, unity)

ROOT = r'^(static )?(has|add|rem|get|update|bfind|set|ref|remove|if)_\w{8}[(]'
VECM = re.compile(r'(?:\w[\w:<>,&* ]* )?fu::vec<(.*)>::(~?\w+|operator\[\]|operator=)(?:<[^()]*>)?\((.*)\)( const)?$')


def ptrs(f, d):
    return any(_terms[t][0] in ('data', 'glob', 'alloca', 'const') or _terms[t][0] == 'ld' and _terms[t][2] == 'ptr' or
               _terms[t][0] == 'a' and f.args[_terms[t][1]]['ty'] == 'ptr' for t, _ in d[1])


class SExec(Exec):
    LIMIT = 4000

    def __init__(self, f, W, tmpl):
        super().__init__(f, 0, ())
        self.W, (self.tH, self.weak) = W, tmpl
        self.bad, self.searches, self.initbad = [], {}, False
        self.items, self.bases = set(), set()

    def w(self, elem):
        return self.W(elem)

    # -- memory effects live in s.mems, a tuple
    def start(self):
        s = super().start()
        s.mems = ()
        return s

    def eff(self, s, *e):
        s.mems = s.mems + (e,)

    def touched(self, s, base):
        return any(e[0] in ('insert', 'splice', 'other') and e[1] == base for e in s.mems)

    def call(self, s, i):
        c, dem, o = i.callee or '', i.cdem or '', i.ops
        if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
            self.eff(s, 'copy', self.numx(s, o[0]), self.numx(s, o[1]), i.id)
            return None
        if c.startswith('llvm.memset'):
            self.eff(s, 'zero', self.numx(s, o[0]), None, i.id)
            return None
        if c in ('memcmp', 'bcmp', 'memmem'):
            raise Undecided('call of ' + c)
        m = VECM.match(dem)
        if m:
            elem, op, pars, const = m.groups()
            this = self.numx(s, o[0])
            if not has_term(this, lambda x: x[0] in ('alloca', 'data')):
                q = (lin(('data', this)), lin(('size', this)), self.w(elem))
                if q not in self.seqs:
                    self.seqs.append(q)
            if op == 'operator[]' or op == 'mutref':
                if self.touched(s, this):
                    s.env[i.id] = lin(('newelem', this, self.numx(s, o[1])))
                else:
                    s.env[i.id] = add(lin(('data', this)), mul(self.numx(s, o[1]), self.w(elem)))
            elif op in ('size', 'data', 'data_mut'):
                if self.touched(s, this):
                    raise Undecided('length after the change')
                s.env[i.id] = lin(('size' if op == 'size' else 'data', this))
            elif op == 'insert':
                self.eff(s, 'insert', this, (self.numx(s, o[1]), self.num(s, o[2])), i.id)
            elif op == 'push':
                if self.touched(s, this):
                    raise Undecided('length after the change')
                self.eff(s, 'insert', this, (lin(('size', this)), self.num(s, o[1])), i.id)
            elif op == 'splice' and len(o) == 3:
                self.eff(s, 'splice', this, (self.numx(s, o[1]), self.numx(s, o[2])), i.id)
            elif op == 'vec' and pars.endswith('const&'):
                self.eff(s, 'copy', this, self.numx(s, o[1]), i.id)
            elif op == 'vec' and not pars:
                self.eff(s, 'zero', this, None, i.id)
            elif op == 'vec' and pars.endswith('&&'):
                self.eff(s, 'copy', this, self.content(s, self.numx(s, o[1])) or self.numx(s, o[1]), i.id)
            elif op == 'operator=':
                self.eff(s, 'copy', this, self.numx(s, o[1]), i.id)
            elif op == '~vec':
                pass
            else:
                raise Undecided('call of vec::' + op)
            if i.op == 'invoke':
                return self.goto(s, i.d['to'])
            return None
        return super().call(s, i)

    def inst(self, s, i):
        if i.op == 'store':
            a = self.numx(s, i.ops[1])
            v = self.val(s, i.ops[0])
            self.eff(s, 'store', a, v if is_lin(v) else None, i.id)
            return None
        if i.op == 'load':
            a = self.numx(s, i.ops[0])
            for e in reversed(s.mems):
                if e[0] == 'store' and e[1] == a:
                    if e[2] is None:
                        break
                    s.env[i.id] = e[2]
                    return None
                if e[0] == 'copy' and has_term(a, lambda x: x[0] == 'alloca') and has_term(sub(a, e[1]), lambda x: x[0] == 'alloca') is False and isc(sub(a, e[1])):
                    s.env[i.id] = lin(('ld', add(e[2], sub(a, e[1])), i.ty))
                    return None
        if i.op in ('ashr', 'lshr', 'sdiv', 'udiv'):
            a, b = self.numx(s, i.ops[0]), self.numx(s, i.ops[1])
            if (b == C(1) and i.op[1:] == 'shr' or b == C(2) and i.op[1:] == 'div') and not isc(a) and \
                    (i.op in ('ashr', 'sdiv') or self.entails(s, a)):
                if i.op == 'sdiv' and not self.entails(s, a):
                    raise Undecided('division of a negative number')
                h = lin(('half', a))
                n = self.addfact(s, sub(a, mul(h, 2)), add(C(1), sub(mul(h, 2), a)))
                if n is None:
                    return []
                n.env[i.id] = h
                n.pc += 1
                return [n]
        return super().inst(s, i)

    # -- the search loop
    def phis(self, h):
        return [p for p in self.f.blocks[h] if p.op == 'phi' and p.ty in ('i32', 'i64') and p.id not in self.iv]

    def goto(self, s, dst):
        if dst not in self.hdr:
            return super().goto(s, dst)
        ph = self.phis(dst)
        if len(ph) != 2 or any(p.op == 'phi' and p not in ph for p in self.f.blocks[dst]):
            raise Undecided('loop that is not a search')
        src = s.blk
        V = {p.id: self.val(s, dict((b, v) for v, b in p.ops)[src]) for p in ph}
        if not all(is_lin(v) for v in V.values()):
            raise Undecided('loop that is not a search')
        if src not in self.hdr[dst]:
            if any(e[0] in ('insert', 'splice') for e in s.mems):
                raise Undecided('search after a change')
            lo = [p.id for p in ph if isc(V[p.id])]
            hi = [p.id for p in ph if not isc(V[p.id])]
            if len(lo) != 1:
                raise Undecided('loop that is not a search')
            lo, hi = lo[0], hi[0]
            n = None
            for t, c in V[hi][1]:
                x = _terms[t]
                if len(V[hi][1]) == 1 and c == 1 and (x[0] == 'size' or x[0] == 'a'):
                    n = (0, ((t, 1),))
            if n is None:
                raise Undecided('upper end is not a length')
            self.searches[dst] = (lo, hi, n)
            if V[lo] != C(0):
                self.err('begins at %s instead of 0: the elements before are never looked at' % show(V[lo]), self.f.blocks[dst][0])
            if sub(self.H(V[lo], V[hi]), n) != C(0):
                self.initbad = True
                self.err('begins with the upper end at %s of %s elements' % (show(V[hi]), show(n)), self.f.blocks[dst][0])
            m = s.copy()
            sl, sh = lin(('phi', lo)), lin(('phi', hi))
            H = self.H(sl, sh)
            m.env[lo], m.env[hi] = sl, sh
            m = self.addfact(m, sl, sub(H, sl), sub(n, H), n)
            if m is None:
                return []
            m.blk, m.pc = dst, 0
            while self.f.blocks[dst][m.pc].op == 'phi':
                m.pc += 1
            return [m]
        lo, hi, n = self.searches[dst]
        if s.mems != () and any(e[0] in ('insert', 'splice', 'copy', 'store') and not has_term(e[1], lambda x: x[0] == 'alloca') for e in s.mems):
            raise Undecided('the search loop changes memory')
        sl, sh = lin(('phi', lo)), lin(('phi', hi))
        H, l2 = self.H(sl, sh), V[lo]
        H2 = self.H(V[lo], V[hi])
        where = self.f.blocks[src][-1]
        less, greater = self.known(s, n)
        if not (self.entails(s, sub(sl, l2)) or any(self.entails(s, sub(add(i, C(1)), l2)) for i in less)):
            self.err('the lower end moves to %s although the elements before it are not known to be less than the item: %s' % (show(l2), self.cell(s)), where)
        if not (self.entails(s, sub(H2, H)) or any(self.entails(s, sub(H2, i)) for i in greater)):
            self.err('the upper end moves to %s although the elements from there on are not known to be greater than the item: %s' % (show(H2), self.cell(s)), where)
        if not (self.entails(s, l2) and self.entails(s, sub(H2, l2)) and self.entails(s, sub(n, H2))):
            self.err('the range [%s, %s) leaves the sequence: %s' % (show(l2), show(H2), self.cell(s)), where)
        if not self.entails(s, add(sub(sub(H, sl), sub(H2, l2)), C(-1))):
            self.err('the range does not shrink: [%s, %s) after %s' % (show(l2), show(H2), self.cell(s)), where)
        return []

    def H(self, l, h):
        return h if self.tH == 'open' else add(h, C(1)) if self.tH == 'closed' else add(l, h)

    def err(self, text, inst):
        e = ('search', text, inst.where())
        if e not in self.bad:
            self.bad.append(e)

    def cell(self, s):
        out = []
        for kind, D in s.atoms:
            if kind == 'atom':
                z = '= 0' if self.zero(s, D) else '> 0' if self.entails(s, add(D, C(-1))) else '< 0' if self.entails(s, add(mul(D, -1), C(-1))) else None
                if z:
                    out.append('%s %s' % (show(D), z))
        return '; '.join(sorted(out)[:6])

    # -- facts about elements
    def compared(self, s):
        """(index, sign, item operands, base) for each comparator result whose sign the path fixes"""
        out = []
        for kind, D in s.atoms:
            if kind != 'atom' or D[0] or len(D[1]) != 1:
                continue
            t, c = D[1][0]
            x = _terms[t]
            if x[0] != 'cc':
                continue
            h = len(x[2]) // 2
            for A, B, o in ((x[2][:h], x[2][h:], 1), (x[2][h:], x[2][:h], -1)):
                r = self.elem(A)
                if r is None:
                    continue
                base, i = r
                z = 0 if self.zero(s, D) else 1 if self.entails(s, add(D, C(-1))) else -1 if self.entails(s, add(mul(D, -1), C(-1))) else None
                if z is None:
                    continue
                out.append((i, z * o * (1 if c > 0 else -1), B, base))
                break
        return out

    def elem(self, A):
        """operand tuple -> (base pointer, index) when it is element `index` of the searched sequence"""
        a = A[0]
        if len(a[1]) == 1 and not a[0] and a[1][0][1] == 1:
            x = _terms[a[1][0][0]]
            if x[0] == 'data' and len(A) == 2:
                a = x[1]
            elif x[0] == 'ld' and len(A) == 1:
                a = x[1]
            elif x[0] == 'ld' and len(A) == 2:
                a = x[1]
        for base, n, w in self.seqs:
            d = sub(a, base)
            if ptrs(self.f, d):
                continue
            if d[0] % w or any(c % w for _, c in d[1]):
                continue
            return base, (d[0] // w, tuple((t, c // w) for t, c in d[1]))
        return None

    def known(self, s, n):
        less, greater = [], []
        for i, z, item, base in self.compared(s):
            self.items.add(item)
            self.bases.add(base)
            if not (self.entails(s, i) and self.entails(s, sub(sub(n, i), C(1)))):
                continue
            if z < 0:
                less.append(i)
            if z > 0 or z == 0 and self.weak:
                greater.append(i)
        return less, greater

    def content(self, s, a):
        """what the local object at address a holds: address it was copied from, 'init', stored values, or None"""
        vals = []
        for e in s.mems:
            if e[0] in ('copy', 'zero', 'store') and not has_term(sub(e[1], a), lambda x: x[0] in ('alloca',)):
                if not isc(sub(e[1], a)):
                    return None
                if e[0] == 'copy':
                    if e[1] == a:
                        vals = [('from', e[2])]
                    else:
                        vals.append(('from', sub(e[2], sub(e[1], a))))
                elif e[0] == 'zero':
                    vals = [('zero', None)]
                else:
                    v = e[2]
                    if v is None:
                        return None
                    x = _terms[v[1][0][0]] if len(v[1]) == 1 and not v[0] and v[1][0][1] == 1 else None
                    if isc(v):
                        vals.append(('zero', None))
                    elif x and x[0] == 'ld':
                        vals.append(('from', sub(x[1], sub(e[1], a))))
                    else:
                        vals.append(('val', v))
        vals = set(vals)
        if not vals:
            return None
        if len(vals) > 1 and ('zero', None) in vals:
            vals.discard(('zero', None))
        return vals.pop() if len(vals) == 1 else None


class V:
    def __init__(self):
        self.bad, self.und, self.paths, self.hits, self.misses, self.loops = [], None, 0, 0, 0, 0


def judge(P, f, W, ccs):
    """None when the function contains no search loop."""
    probe = SExec(f, W, ('open', False))
    cand = [h for h in probe.hdr if len(probe.phis(h)) == 2 and any(
        i.op in ('call', 'invoke') and re.search(r'x3Cx3E_', i.cdem or '') for b in probe.body[h] for i in f.blocks[b])]
    if not cand:
        return None
    best = None
    for tH in ('open', 'closed', 'len'):
        for weak in (False, True):
            v = one(P, f, W, ccs, (tH, weak))
            if v.und is None and not v.bad:
                return v
            rank = (v.und is not None, v.initbad, len(v.bad))
            if best is None or rank < best[0]:
                best = (rank, v)
    return best[1]


def one(P, f, W, ccs, tmpl):
    R = V()
    R.initbad = False
    shp = shapes(f)
    ex = SExec(f, W, tmpl)
    ex.ccs = ccs
    ex.P = P
    if shp is None:
        R.und = 'signature'
        return R
    ex.base = {lin(('a', sh.args[1])) for sh in shp if sh.kind == 'view'}
    # sequences: views among the operands, vectors whose elements or size are used
    ex.seqs = []
    try:
        for sh in shp:
            if sh.kind == 'view':
                ex.seqs.append((lin(('a', sh.args[0])), lin(('a', sh.args[1])), W(sh.elem)))
        ex.run()
        R.paths = len(ex.rets)
        R.loops = len(ex.searches)
        R.bad += ex.bad
        R.initbad = ex.initbad
        if ex.searches and not any(b for b in ex.bad):
            returns(R, ex, f, shp)
    except Undecided as e:
        R.und = str(e)
    return R


def returns(R, ex, f, shp):
    kind = re.match(r'[a-z]+', f.base).group(0)
    P = []
    pairs = set()
    for s, v, i in ex.rets:
        cmp = ex.compared(s)
        (h, (lo, hi, n)), = list(ex.searches.items())[:1] if len(ex.searches) == 1 else [(None, (None, None, None))]
        if h is None:
            raise Undecided('several searches')
        sl, sh = lin(('phi', lo)), lin(('phi', hi))
        hits = [j for j, z, it, b in cmp if z == 0 and ex.entails(s, j) and ex.entails(s, sub(sub(n, j), C(1)))]
        done = has_phi(s, lo) and ex.entails(s, sub(sl, ex.H(sl, sh)))
        if done and not ex.weak and any(z == 0 and not has_term(j, lambda x: x[0] == 'phi') for j, z, it, b in cmp):
            continue                                        # would have been found in one of the two parts
        if has_phi(s, lo) and any(
                (z < 0 or z == 0 and not ex.weak) and ex.entails(s, sub(j, ex.H(sl, sh))) or
                z >= 0 and ex.entails(s, j) and ex.entails(s, sub(sub(sl, j), C(1))) for j, z, it, b in cmp):
            continue                                        # contradicts the invariant: no such path
        items = ex.items | {it for j, z, it, b in cmp}
        bases = ex.bases | {b for j, z, it, b in cmp}
        miss = None
        if hits:
            pass
        else:
            inl = has_phi(s, lo)
            less = [j for j, z, it, b in cmp if z < 0 and ex.entails(s, j) and ex.entails(s, sub(sub(n, j), C(1)))]
            more = [j for j, z, it, b in cmp if z > 0 and ex.entails(s, j) and ex.entails(s, sub(sub(n, j), C(1)))]
            for q in [e[2][0] for e in s.mems if e[0] == 'insert'] + [C(0)] + ([sl] if inl else []) + [n] + [add(j, C(1)) for j in less] + more:
                if (ex.entails(s, mul(q, -1)) or inl and ex.entails(s, sub(sl, q)) or any(ex.entails(s, sub(add(j, C(1)), q)) for j in less)) and \
                        (ex.entails(s, sub(q, n)) or inl and not ex.weak and ex.entails(s, sub(q, ex.H(sl, sh))) or
                         any(ex.entails(s, sub(q, j)) for j in more)) and ex.entails(s, q) and ex.entails(s, sub(n, q)):
                    miss = q
                    break
        P.append((s, v, i, hits, miss, items, bases, n))
        for e in s.mems:
            if e[0] in ('insert', 'splice'):
                pairs.add(e[1])
    for sh in shp:
        d = ex.P.structs.get(sh.ty) if sh.kind == 'struct' else None
        own = [add(lin(('a', sh.args[0])), C(off)) for nm, off, sz, tn in d['fields'] if re.match(r'(fu::)?(vec<|str$)', tn)] if d else []
        if any(a in pairs for a in own):
            pairs.update(own)
    for s, v, i, hits, miss, items, bases, n in P:
        def err(t):
            R.bad.append(('result', t + ' (%s)' % (ex.cell(s) or 'always'), i.where()))
        ins = [e for e in s.mems if e[0] == 'insert']
        spl = [e for e in s.mems if e[0] == 'splice']
        keys = None
        x = _terms[n[1][0][0]]
        if x[0] == 'size':
            keys = x[1]
        if hits:
            R.hits += 1
            hit = lambda j: any(ex.zero(s, sub(j, k)) for k in hits)
            for e in ins:
                err('inserts although the item is present')
            if kind in ('rem', 'remove'):
                if [e for e in spl if e[1] == keys] == []:
                    err('finds the item but does not remove it')
            elif spl and kind != 'if':
                err('removes an element')
            for e in spl:
                if not hit(e[2][0]) or not ex.zero(s, sub(e[2][1], C(1))):
                    err('removes %s elements at %s instead of the one found' % (show(e[2][1]), show(e[2][0])))
            for p in pairs:
                if spl and len([e for e in spl if e[1] == p]) != 1:
                    err('removes from one of two parallel sequences %d times' % len([e for e in spl if e[1] == p]))
        elif miss is not None:
            R.misses += 1
            at = lambda j: ex.zero(s, sub(j, miss))
            if spl:
                err('removes an element although the item is absent')
            if kind in ('add', 'update', 'set', 'bfind', 'ref') and pairs:
                if not [e for e in ins if e[1] == keys]:
                    err('the item is absent and is not inserted')
            for p in pairs:
                if ins and len([e for e in ins if e[1] == p]) != 1:
                    err('inserts into one of two parallel sequences %d times' % len([e for e in ins if e[1] == p]))
            if kind == 'update' and pairs and len({e[1] for e in ins}) < 2:
                err('inserts a key without its value')
            for e in ins:
                if not at(e[2][0]):
                    err('inserts at %s instead of the position of the item, %s' % (show(e[2][0]), show(miss)))
                c = None
                if e[2][1] is not None:
                    if has_term(e[2][1], lambda x: x[0] == 'alloca'):
                        c = ex.content(s, e[2][1])
                    else:
                        c = ('from', e[2][1])
                if c is None:
                    R.unk = True
                    continue
                for it in items:
                    k = item_addr(it)
                    if e[1] == keys:
                        if c[0] == 'from' and k is not None and k[0] == 'ref' and c[1] != k[1]:
                            err('inserts a key that is not the item searched for')
                        if c[0] == 'val' and k is not None and k[0] == 'val' and c[1] != k[1]:
                            err('inserts a key that is not the item searched for')
                        if c[0] == 'zero':
                            err('inserts an empty key')
                    elif c[0] == 'from' and k is not None and k[0] == 'ref' and c[1] == k[1]:
                        err('inserts the key as value')
        else:
            err('returns without having found the item or searched the whole sequence')
            continue
        ty = f.d.get('ret') or (ir_type(v))
        present = bool(hits)
        if v is None:
            continue
        if f.dem.startswith('bool ') or is_bool(i, f):
            want = present if kind in ('has', 'rem', 'remove', 'if') else not present
            for t, s2 in ex.decide(s, v):
                if t != want and kind in ('has', 'rem', 'remove', 'if', 'add', 'update', 'set'):
                    err('returns %s although the item is %s' % ('true' if t else 'false', 'present' if present else 'absent'))
        elif kind in ('get',):
            a = v
            if is_lin(v) and len(v[1]) == 1 and not v[0] and _terms[v[1][0][0]][0] == 'ld':
                a = _terms[v[1][0][0]][1]
            if not is_lin(a):
                raise Undecided('result')
            r = None
            for base, m, w in ex.seqs:
                d = sub(a, base)
                if ptrs(f, d) or d[0] % w or any(c % w for _, c in d[1]):
                    continue
                r = (base, (d[0] // w, tuple((t, c // w) for t, c in d[1])))
                if base not in bases:
                    break
            if present:
                if r is None:
                    if isc(a) or has_term(a, lambda x: x[0] in ('glob', 'const')):
                        err('the item is present but nothing is returned')
                    else:
                        raise Undecided('result')
                elif not any(ex.zero(s, sub(r[1], k)) for k in hits):
                    err('returns the value at %s instead of that of the item found' % show(r[1]))
                elif r[0] in bases and len(shp) > 2:
                    err('returns a key instead of the value')
            elif r is not None:
                err('returns the value at %s although the item is absent' % show(r[1]))
        elif i.ops and rty(f, i) == 'i32':
            want = [hits[0]] if present else [miss] if ins else [C(-1), miss]
            if not is_lin(v) or not any(ex.zero(s, sub(v, w)) for w in want):
                err('returns position %s instead of %s' % (show(v) if is_lin(v) else '?', show(want[0])))
        if kind in ('update',) and present:
            ok = False
            for e in s.mems:
                if e[0] in ('copy', 'store') and not has_term(e[1], lambda x: x[0] == 'alloca'):
                    for base, m, w in ex.seqs:
                        if base in bases:
                            continue
                        d = sub(e[1], base)
                        if ptrs(f, d):
                            continue
                        q, r0 = divmod(d[0], w)
                        if any(c % w for _, c in d[1]):
                            continue
                        j = (q, tuple((t, c // w) for t, c in d[1]))
                        if any(ex.zero(s, sub(j, k)) for k in hits):
                            ok = True
                        else:
                            err('replaces the value at %s instead of that of the item found' % show(j))
            if not ok:
                err('the item is present but its value is not replaced')


def has_phi(s, lo):
    return any(has_term(f, lambda x: x == ('phi', lo)) for f in s.facts)


def item_addr(it):
    """('ref', address) of the item compared, or ('val', value), or None (a view)"""
    if len(it) == 2:
        x = _terms[it[0][1][0][0]] if len(it[0][1]) == 1 and not it[0][0] else None
        if x and x[0] == 'data':
            return ('ref', x[1])
        return None
    x = _terms[it[0][1][0][0]] if len(it[0][1]) == 1 and not it[0][0] else None
    if x and x[0] == 'ld':
        return ('ref', x[1])
    return ('ref', it[0]) if x and x[0] == 'a' else ('val', it[0])


def rty(f, i):
    v = i.ops[0]
    if isinstance(v, int):
        x = f.inst.get(v)
        return x.ty if x is not None else next(a['ty'] for a in f.args if a['id'] == v)
    return 'i%d' % v['w'] if 'w' in v else 'ptr'


def is_bool(i, f):
    return bool(i.ops) and rty(f, i) == 'i1'


def ir_type(v):
    return None


def widths(P):
    from .seqcmp import WIDTH
    W = {n: d['size'] for n, d in P.structs.items()}

    def w(e):
        e = e.strip()
        if e in WIDTH:
            return WIDTH[e]
        if e in W:
            return W[e]
        if e.endswith('*'):
            return 8
        if re.match(r'fu::(vec|view)<|fu::str$', e):
            return 16
        raise Undecided('width of ' + e)
    return w


def run(ctx):
    from .seqcmp import fn_key
    bcs = env.snapshot_bc(*unity(), defs=env.RAW)
    memo = {}
    for m, bc in bcs.items():
        P = ir.load([bc], ['-inline', '-root', ROOT, '-keepfile', r'/include/fu/.*\bvec\.h', '-keepbase', r'x3Cx3E_\w*', '-passes', 'function(sroa,early-cse)'])
        ccs = {}
        for f in P.fns.values():
            k = re.search(r'x3Cx3E_\w+', f.dem)
            if k:
                ccs[k.group(0)] = f.dem
        W = widths(P)
        for f in P.fns.values():
            if not f.blocks or not f.name.endswith('.inl'):
                continue
            key = fn_key(f, P, ccs)
            if key not in memo:
                memo[key] = judge(P, f, W, ccs)
            R = memo[key]
            if R is None:
                continue
            name = re.sub(r'_(\w{8})\(', '(', f.dem)
            ctx.count('searches seen')
            if R.und:
                ctx.count('undecided')
                ctx.sample('undecided: %s: %s' % (name, R.und))
                continue
            ctx.rule('binary search invariant, position of every insertion, removal and result')
            ctx.fn(m + ':' + f.dem)
            ctx.count('functions')
            ctx.count('paths', R.paths)
            ctx.count('hit paths', R.hits)
            ctx.count('miss paths', R.misses)
            for what, text, where in R.bad:
                ctx.violation('%s:%s:%s' % (what, ir.short(f.file), name), '%s %s (%s)' % (name, text, where))
    ctx.need('searches seen', 10)
