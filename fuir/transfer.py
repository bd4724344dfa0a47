"""Continuation of partial transfers, over path traces (trace.py).

For every read/write/fread in a loop, and with r the count the call returned:
 - on every path back to the loop head the next position is the previous one plus r and the next
   length the previous one minus r (as polynomials, integer casts transparent);
 - on every path to `return 0` the branch facts exclude that bytes are still missing: with e the
   bytes remaining (the length operand; for a read that asks for more than that, the quantity the
   returned-success branch compares, anchored at the requested size), the facts that speak about e
   are evaluated at e=1, e=2 and, when the call may transfer more than e, e=-1;
 - a transfer into a local buffer is followed by an append of exactly that buffer and r bytes, and
   the loop is not left for a successful return on a path where the last count was positive.
Anything that is not in one of these recognised shapes is counted as undecided and not reported."""
import re
from . import trace
from .trace import poly, unpoly, add, sub, subst, mul

POS = (1, 2, 100, 4096, 1 << 16, 1 << 24)     # witness counts
NAMES = {'read': (1, 2), 'write': (1, 2), 'pread': (1, 2), 'pwrite': (1, 2), 'fread': (0, 2), 'fwrite': (0, 2)}


def lin(t):
    """casts between integer widths dropped"""
    if not isinstance(t, tuple):
        return t
    if t[0] in ('sx', 'zx', 'tr'):
        return lin(t[2])
    if t[0] == 'p':
        r = 0
        for m, c in t[1]:
            q = c
            for x in m:
                q = mul(q, lin(x))
            r = add(r, q)
        return r
    if t[0] == 'sel' and isinstance(t[1], tuple) and t[1][0] == 'cmp' and t[1][1] in ('slt', 'ult', 'sle', 'ule'):
        # min(A, K) with K the largest value of its type
        a, k = t[2], t[3]
        if isinstance(k, int) and k >= (1 << 31) - 1 and lin(t[1][2]) == lin(a):
            return lin(a)
    return t


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))


def cmp_facts(t):
    """(pred, a, b, truth) of the facts that are plain comparisons"""
    for c, v in t.facts.items():
        if isinstance(c, tuple) and c[0] == 'cmp':
            yield c[1], lin(c[2]), lin(c[3]), v


def holds(pred, x):
    """pred(x, 0), x not wrapped"""
    return {'eq': x == 0, 'ne': x != 0, 'slt': x < 0, 'ult': x < 0, 'sle': x <= 0, 'ule': x <= 0,
            'sgt': x > 0, 'ugt': x > 0, 'sge': x >= 0, 'uge': x >= 0}[pred]


def at(e, w, t, must=None):
    """The facts of t about e, with e := w: True if all hold, None if none speaks about e."""
    seen = None
    for pred, a, b, v in cmp_facts(t):
        d = sub(a, b)
        for s in (1, -1):
            k = add(d, e, -s)
            if isinstance(k, int):
                if holds(pred, s * w + k) != v:
                    return False
                seen = True
                break
    return seen


def local(t, p):
    return trace.Tracer.base(p)


class Rules:
    def __init__(self, fn, name, report, count, limit=4000):
        self.fn, self.name, self.report, self.count = fn, name, report, count
        self.T = trace.Tracer(fn, limit=limit)

    def run(self):
        try:
            ts = self.T.run()
        except OverflowError:
            self.count('transfer_undecided')
            return
        ts = [t for t in ts if not self.absurd(t)]
        for site in {e.i.id: e.i for t in ts for e in t.ev if e.k == 'call' and e.a in NAMES}.values():
            heads = [h for h in self.T.heads if site.blk in self.T.body[h]]
            if not heads:
                if site.callee.endswith('read'):
                    self.once(site, ts)
                continue
            h = min(heads, key=lambda x: len(self.T.body[x]))
            self.count('transfer_traced')
            self.site(site, h, ts)

    def absurd(self, t):
        """A local buffer never equals an address that is not derived from it."""
        for c, v in t.facts.items():
            if v and isinstance(c, tuple) and c[0] == 'cmp' and c[1] == 'eq':
                a, b = c[2], c[3]
                if {isinstance(a, tuple) and a[0] == 'alloca', isinstance(b, tuple) and b[0] == 'alloca'} == {True, False}:
                    if self.T.base(a) != self.T.base(b):
                        return True
        return False

    def event(self, t, site):
        for e in t.ev:
            if e.k == 'call' and e.i.id == site.id:
                return e
        return None

    def site(self, site, h, ts):
        ip, il = NAMES[site.callee]
        e0 = next(e for t in ts for e in [self.event(t, site)] if e)
        r = e0.x
        phis = {('phi', i.id): i for i in self.fn.blocks[h] if i.op == 'phi'}
        backs = [(t, self.event(t, site)) for t in ts if t.end == 'back' and t.n.get('to') == h]
        # a path back without a transfer (retry after a recognised error) leaves everything as it was
        backs = [(t, e) for t, e in backs if e is not None and not all(at(r, w, t) is False for w in POS)]
        what = self.name, site.callee
        if site.callee in ('fread', 'fwrite'):
            sz = e0.v[1]
            if isinstance(sz, int) and sz != 1:
                self.report('item', site, '%s: %s transfers items of %d bytes but its result is used as a number of bytes' % (*what, sz))
                return
        lens = []
        mixed = {self.T.base(lin(e.v[ip])) is not None for _, e in backs} == {True, False}
        for t in ts:
            e = self.event(t, site)
            if e is not None:
                self.capacity(site, t, e, ip, il)
            if t.end == 'back' and t.n.get('to') == h and e is not None:
                self.failed(site, t, e, r, phis, ip)
        for t, e in backs:
            nxt = {p: lin(t.env['back'][p[1]]) for p in phis}

            def step(x):
                y = lin(x)
                z = y
                for k, p in enumerate(phis):
                    z = subst(z, p, ('tmp', k))
                for k, p in enumerate(phis):
                    z = subst(z, ('tmp', k), nxt[p])
                return sub(lin(z), y)
            pos, ln = lin(e.v[ip]), lin(e.v[il])
            loc = self.T.base(pos)
            if site.callee.startswith('p'):
                self.count('transfer_undecided')
                continue
            if loc is None or site.callee.endswith('write'):
                d = step(pos)
                self.judge(site, 'position', d, r, 1, e)
            if loc is None or site.callee.endswith('write'):
                d = step(ln)
                if not (loc is None and isinstance(ln, int)):
                    self.judge(site, 'length', d, r, -1, e)
            if loc is not None and site.callee.endswith('read'):
                self.appended(site, t, e, r, loc)
            elif mixed and not any(x.k in ('store', 'call', 'icall') and any(mentions(lin(y), r) for y in
                                   (x.v if isinstance(x.v, list) else [x.v])) for x in t.ev[t.ev.index(e) + 1:]):
                self.report('append', site, '%s: on a path the count %s returned is not recorded in the output' % what)
            lens.append(ln)
        for t in ts:
            if t.end != 'ret':
                continue
            e = self.event(t, site)
            ok = self.success(t)
            if ok and e is not None and at(r, 1, t) is True and not any(at(r, w, t) is False for w in (1, 2, 4096)) \
                    and self.T.base(lin(e.v[ip])) is not None and site.callee.endswith('read'):
                self.report('early', site, '%s: returns success after a %s that delivered bytes, without asking for more' % what)
            if not lens or site.callee == 'fread' or \
                    any(self.T.base(lin(e.v[ip])) is not None for _, e in backs) and site.callee.endswith('read'):
                continue
            if h not in t.blk:
                continue
            self.stop(site, h, t, lens, phis, r, ok)

    def capacity(self, site, t, e, ip, il):
        b, n = self.T.base(lin(e.v[ip])), lin(e.v[il])
        if b is None:
            return
        a = self.fn.inst[b[1]].d
        m = re.match(r'\[(\d+) x i8\]$', a.get('at', ''))
        off = sub(lin(e.v[ip]), b)
        if not m or not isinstance(off, int):
            return
        self.count('transfer_local_buffers')
        if not isinstance(n, int):
            cap = int(m.group(1)) - off
            if self.exceeds(n, cap, t):
                pass
            elif at(n, cap, t) is not False or at(n, cap + 1, t) is not True:
                return self.count('transfer_undecided')
            self.report('capacity', site, '%s: %s may transfer more than the %s bytes its local buffer has' % (self.name, site.callee, m.group(1)))
        elif off + n > int(m.group(1)):
            self.report('capacity', site, '%s: %s may transfer %d bytes into a local buffer of %s' % (self.name, site.callee, n, m.group(1)))

    def exceeds(self, n, cap, t):
        """n = (X pred K ? a : b) with a, b in {X, constant}: is it above cap for X = 2 cap?"""
        if not isinstance(n, tuple) or n[0] != 'sel' or not isinstance(n[1], tuple) or n[1][0] != 'cmp':
            return False
        pred, x, k = n[1][1], lin(n[1][2]), n[1][3]
        if not isinstance(k, int) or at(x, 2 * cap, t) is False:
            return False
        got = n[2] if holds(pred, 2 * cap - k) else n[3]
        return lin(got) == x or isinstance(got, int) and got > cap

    def failed(self, site, t, e, r, phis, ip):
        """The loop goes round although the call may have returned -1, or 0 at the end of the input."""
        if at(r, -1, t) is not False and not site.callee.startswith('f'):
            pos = lin(e.v[ip])
            if any(mentions(pos, p) and mentions(lin(t.env['back'][p[1]]), r) for p in phis):
                self.report('failure', site, '%s: the position of the next %s advances by the value of a call that may have failed' %
                            (self.name, site.callee))
        if 'read' in site.callee and at(r, 0, t) is True and \
                not any(x.k == 'call' and x.a != site.callee and x.i.id > e.i.id and x.a in ('feof', 'clearerr', 'poll', 'select') for x in t.ev):
            self.report('eof', site, '%s: the %s loop goes round after the end of the input' % (self.name, site.callee))

    def success(self, t):
        v = t.val
        if v == 0:
            return True
        return isinstance(v, tuple) and t.facts.get(('cmp', 'eq', v, 0)) is True

    def judge(self, site, kind, d, r, sign, e):
        want = r if sign > 0 else mul(r, -1)
        if d == want:
            self.count('transfer_steps')
            return
        only = all(m == () or m == (r,) for m in poly(d))
        if not only:
            self.count('transfer_undecided')
            return
        self.report(kind, site, '%s: %s repeats in a loop and its %s changes by %s, not by the count it returned' %
                    (self.name, site.callee, kind, 'nothing' if d == 0 else 'a different amount'))

    def once(self, site, ts):
        """A helper that reads once: what it appends is what it read."""
        ip, il = NAMES[site.callee]
        for t in ts:
            e = self.event(t, site)
            if e is None:
                continue
            r = e.x
            for x in t.ev[t.ev.index(e) + 1:]:
                if x.k != 'call' or not isinstance(x.a, str) or 'append' not in x.a:
                    continue
                for a, n in zip(x.v, x.v[1:]):
                    n = lin(n)
                    if not mentions(n, r):
                        continue
                    if not all(m == () or m == (r,) for m in poly(n)):
                        self.count('transfer_undecided')
                    elif n != r:
                        self.report('append', site, '%s: what is appended after %s is not the number of bytes it returned' % (self.name, site.callee))
                    elif a == e.v[ip] or self.same(t, a, e.v[ip]):
                        self.count('transfer_appends')
                    elif self.same(t, a, e.v[ip]) is False:
                        self.report('append', site, '%s: what is appended after %s is not the buffer it filled' % (self.name, site.callee))
                    else:
                        self.count('transfer_undecided')

    def same(self, t, a, b):
        for c in (('cmp', 'eq', a, b), ('cmp', 'eq', b, a)):
            if c in t.facts:
                return t.facts[c]
        return None

    def appended(self, site, t, e, r, loc):
        for x in t.ev[t.ev.index(e) + 1:]:
            if x.k == 'call' and isinstance(x.a, str) and 'append' in x.a:
                args = [lin(y) for y in x.v]
                if loc in args:
                    if lin(r) in args:
                        self.count('transfer_appends')
                        return
                    n = args[args.index(loc) + 1] if args.index(loc) + 1 < len(args) else None
                    if n is not None and all(m == () or m == (r,) for m in poly(n)):
                        self.report('append', site, '%s: what is appended after %s is not the number of bytes it returned' % (self.name, site.callee))
                        return
                    self.count('transfer_undecided')
                    return
        if any(x.k in ('memcpy', 'memmove') or x.k in ('call', 'icall') and any(loc in [self.T.base(y) for y in x.v] for _ in [0])
               for x in t.ev[t.ev.index(e) + 1:]):
            self.count('transfer_undecided')
            return
        self.report('append', site, '%s: on a path the bytes %s stored in a local buffer are not appended to the output' % (self.name, site.callee))

    def stop(self, site, h, t, lens, phis, r, ok):
        """A successful return after the loop: nothing may be missing."""
        e = self.event(t, site)
        first = e is not None and any(at(r, w, t) is not False for w in (0, -1))
        if first and not ok and h in t.blk and at(r, 0, t) is True and at(r, 1, t) is True:
            self.report('stop', site, '%s: on a path the %s loop gives up after a partial transfer that did not fail' %
                        (self.name, site.callee))
            return
        if first and not ok:
            return
        moved = e is not None and h in t.blk and not all(at(r, w, t) is False for w in POS)
        if moved and any(at(r, w, t) is not False for w in (0, -1)):
            self.count('transfer_undecided')
            return
        facts = list(cmp_facts(t))
        both = False
        for ln in lens:
            if any(not isinstance(add(sub(a, b), sub(ln, r) if moved else ln, -s), tuple) for _, a, b, _ in facts for s in (1, -1)):
                break
        else:
            ln = lens[0] if all(x == lens[0] for x in lens) else None
        if ln is not None and moved:
            ln = sub(ln, r)
        cands = []
        if ln is not None and site.callee == 'write' and at(ln, 1, t) is not None:
            cands.append((ln, (1, 2)))
        ph = [p for p in phis if any(mentions(x, p) for x in lens)]
        # facts that compare the counter with the total
        for pred, a, b, v in facts:
            d = sub(a, b)
            if not isinstance(d, tuple) or not any(mentions(d, p) for p in ph):
                continue
            if mentions(d, r):
                both = True
            init = d
            for p in phis:
                init = subst(init, p, lin(t.n.get(('init', p[1]), p)))
            init = lin(init)
            q = poly(init)
            rk = q.pop((r,), 0)
            c0 = q.pop((), 0)
            if len(q) != 1:
                continue
            ((m, k),) = q.items()
            if abs(k) != 1 or rk != (-k if moved else 0):
                continue
            x = mul(add(d, c0, -1), k)
            if x not in [c[0] for c in cands]:
                cands.append((x, (1, 2, -1) if ln is None or x != ln else (1, 2)))
        if not cands:
            if ok and moved and not both and site.callee == 'write':
                self.report('stop', site, '%s: a path returns success after a partial %s without looking at what is left' %
                            (self.name, site.callee))
                return
            self.count('transfer_undecided')
            return
        bad = None
        if not ok:
            if all(at(x, 1, t) is True for x, _ in cands):
                self.report('stop', site, '%s: on a path the %s loop gives up after a partial transfer that did not fail' %
                            (self.name, site.callee))
            return
        for x, ws in cands:
            miss = [w for w in ws if at(x, w, t) is True]
            if not miss:
                self.count('transfer_stops')
                return
            bad = bad or miss
        self.report('stop', site, '%s: a path returns success although the %s loop stopped with %s' %
                    (self.name, site.callee, 'bytes still to transfer' if bad[0] > 0 else 'more bytes transferred than asked for'))


def check(fn, name, report, count, limit=4000):
    Rules(fn, name, report, count, limit).run()
