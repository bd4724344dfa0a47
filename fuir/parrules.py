"""Rules over the path traces of the parallel runtime (fuir/trace.py).  A shape the rules do not
recognise is counted as undecided, never reported."""
import json
from . import env, ir, trace
from .trace import add, sub, mul, poly, unpoly, bits, subst, show, M64

ACQ = {'acquire', 'acq_rel', 'seq_cst'}
REL = {'release', 'acq_rel', 'seq_cst'}
SRC = env.VERIF + '/harness/rt_par.cpp'
BENIGN = r'std::condition_variable|^pthread_mutex_|^std::mutex|^__gthread'


class Undecided(Exception):
    pass


def functions(src=SRC, defs=('-DNDEBUG',), root=r'fu::op__|operator\(\)|__invoke', keep='op_body|std::condition_variable', extra=()):
    try:
        bc = env.native_bc(src, defs)
    except env.Broken:              # internal helpers renamed: analyse them through the exported functions
        bc = env.native_bc(src, tuple(defs) + ('-DPAR_PUBLIC',))
    out = env.irdump([bc], ['-inline', '-root', root, '-keep', keep, '-passes', 'function(sroa,early-cse,simplifycfg)', '-notypes'] + list(extra))
    fs = [json.loads(l) for l in out.decode().splitlines()]
    return [ir.Fn(d) for d in fs if 'blocks' in d]


def traces(f, args=None):
    trace.PTR.clear()
    return trace.Tracer(f, args, BENIGN).run()


# ---- helpers over terms ----

def lo(t):
    """a lower bound of an unsigned term, or None"""
    if isinstance(t, int):
        return t if t >= 0 else None
    h = t[0]
    if h == 'sel':
        c = t[1]
        k = implied_lo(c, True, t[2])
        a = max(x for x in (lo(t[2]), k) if x is not None) if lo(t[2]) is not None or k is not None else None
        k = implied_lo(c, False, t[3])
        b = max(x for x in (lo(t[3]), k) if x is not None) if lo(t[3]) is not None or k is not None else None
        return None if a is None or b is None else min(a, b)
    if h in ('umax', 'smax'):
        a, b = lo(t[1]), lo(t[2])
        return b if a is None else a if b is None else max(a, b)
    if h == 'umin':
        a, b = lo(t[1]), lo(t[2])
        return None if a is None or b is None else min(a, b)
    if h == 'p':
        s = 0
        for m, c in t[1]:
            if c < 0:
                return None
            if m == ():
                s += c
        return s
    return 0


def implied_lo(c, val, t):
    """lower bound of t implied by the condition c having the truth value val"""
    while isinstance(c, tuple) and c[0] == 'not':
        c, val = c[1], not val
    if not (isinstance(c, tuple) and c[0] == 'cmp'):
        return None
    _, p, a, b = c
    if a != t and b == t:
        a, b, p = b, a, ir.SWAP[p]
    if a != t or not isinstance(b, int):
        return None
    if not val:
        p = ir.NEG[p]
    if (p, b) == ('ne', 0):
        return 1
    return {'ugt': b + 1, 'uge': b, 'eq': b, 'sgt': b + 1, 'sge': b}.get(p) if b >= 0 else None


def atmost(t, q):
    """is the unsigned term t <= q, or <= 1, on every alternative?"""
    if t == q or t in (0, 1):
        return True
    if isinstance(t, tuple) and t[0] == 'sel':
        def arm(x, val):
            if atmost(x, q):
                return True
            c, v = t[1], val
            while isinstance(c, tuple) and c[0] == 'not':
                c, v = c[1], not v
            if isinstance(c, tuple) and c[0] == 'cmp':
                _, p, a, b = c
                p = p if v else ir.NEG[p]
                if (a, b) == (x, q) and p in ('ult', 'ule', 'eq'):
                    return True
                if (b, a) == (x, q) and p in ('ugt', 'uge', 'eq'):
                    return True
            return False
        return arm(t[2], True) and arm(t[3], False)
    if isinstance(t, tuple) and t[0] in ('umax',):
        return atmost(t[1], q) and atmost(t[2], q)
    if isinstance(t, tuple) and t[0] == 'umin':
        return atmost(t[1], q) or atmost(t[2], q)
    return False


def is_one(t, facts):
    """do the facts say t == 1 (t >= 1 known)?"""
    if t == 1:
        return True
    for c, val in facts.items():
        if c[0] == 'cmp' and c[2] == t and isinstance(c[3], int):
            p = c[1] if val else ir.NEG[c[1]]
            if (p, c[3]) in (('eq', 1), ('ult', 2), ('ule', 1), ('slt', 2), ('sle', 1)):
                return True
    return False


def zero_fact(t, facts):
    """True / False / None: is the term known to be zero on this path?"""
    for c, val in facts.items():
        if c[0] == 'cmp' and c[1] == 'eq' and c[2] == t and c[3] == 0:
            return val
        if c[0] == 'cmp' and c[1] in ('sle', 'ule', 'slt', 'ult') and c[2] == t and isinstance(c[3], int):
            p = c[1] if val else ir.NEG[c[1]]
            if p in ('ugt', 'sgt') and c[3] >= 0 or p in ('uge', 'sge') and c[3] >= 1:
                return False
            if (p, c[3]) in (('sle', 0), ('slt', 1)):
                return True            # counters never go below zero
        if c == ('tr', 1, t):
            return not val
    return None


def eqfact(t, k, facts):
    for c, val in facts.items():
        if c[0] == 'cmp' and c[1] == 'eq' and c[2] == t and isinstance(c[3], int):
            if c[3] == k:
                return val
            if val:
                return False
        if c[0] == 'cmp' and c[1] in ('sle', 'slt', 'ule', 'ult') and c[2] == t and isinstance(c[3], int):
            p = c[1] if val else ir.NEG[c[1]]
            if p in ('sgt', 'ugt') and k <= c[3] or p in ('sge', 'uge') and k < c[3] or p in ('slt', 'ult') and k >= c[3] or p in ('sle', 'ule') and k > c[3]:
                return False
            # a counter of outstanding batches is at least 1 before a decrement
            if p in ('slt', 'ult') and (k, c[3]) == (1, 2) or p in ('sle', 'ule') and (k, c[3]) == (1, 1):
                return True
    return None


def at(t, term):
    """address a loaded term was read from"""
    return t.n.get(('at', term[1])) if isinstance(term, tuple) and term[0] in ('ld', 'aload') else None


def loc(f, i=None):
    if i is not None:
        try:
            l = f.loc(i)
            if l:
                return l
        except Exception:
            pass
    return f.dem


# ---- the lock-free stack ----

class Stack:
    """decodes the tagged head: untag() is what try_pop returns for a head value"""

    def __init__(self, ctx, align, push, pop, tag):
        self.ctx, self.align, self.tag = ctx, align, tag
        self.push_f, self.pop_f = push, pop
        self.U = None            # (term of the expected value, pointer term)

    def und(self, why):
        self.ctx.count('undecided_shapes')
        self.ctx.sample('undecided: %s: %s' % (self.tag, why))

    def bad(self, key, text, f):
        self.ctx.violation('stack%s %s' % (self.tag, key), '%s: %s' % (f.dem, text))

    def run(self, order):
        ctx = self.ctx
        pops = traces(self.pop_f, ['s'])
        pushes = traces(self.push_f, ['s', 'first', 'last'])
        H = ('arg', 's')
        for f, ts in ((self.pop_f, pops), (self.push_f, pushes)):
            ctx.fn(f.dem)
            ctx.count('stack_paths', len(ts))
        used = None
        for t in pops:
            cas = [e for e in t.ev if e.k == 'cas']
            ok = [e for e in cas if t.facts.get(('casok', e.i.id))]
            if t.end == 'back':
                self.back(t, H, self.pop_f)
            if t.end != 'ret':
                continue
            if not ok:
                # the stack was seen empty
                heads = [e.v for e in t.ev if e.k == 'aload' and e.a == H] + [('phi', i) for (k, i) in [x for x in t.n if isinstance(x, tuple) and x[0] == 'init']]
                r = t.val
                if r != 0 and zero_fact(r, t.facts) is not True:
                    self.bad('pop-unclaimed', 'try_pop returns a node it did not remove from the stack', self.pop_f)
                    continue
                good = any(c[0] == 'cmp' and c[1] == 'eq' and c[3] == 0 and v is True and self.depends(c[2], heads) for c, v in t.facts.items())
                if not good:
                    self.bad('pop-giveup', 'try_pop reports an empty stack on a path that did not see one', self.pop_f)
                ctx.count('stack_obligations')
                continue
            if len(ok) > 1:
                self.bad('pop-twice', 'try_pop removes two nodes and returns one', self.pop_f)
                continue
            e = ok[0]
            if e.a != H:
                self.und('pop CAS not on the head')
                continue
            x, U = e.x, t.val
            if self.U is None:
                self.U = (x, U)
            nexts = [l for l in t.ev if l.k in ('aload', 'load') and l.a == U and t.ev.index(l) < t.ev.index(e)]
            trace.PTR.clear()
            ub = bits(U)
            field = {i for b in ub if isinstance(b, tuple) and b[0] == x for i in (b[1],)}
            if len(field) < 32:
                self.und('pointer field of the head')
                continue
            if not nexts:
                self.bad('pop-next', 'the new head is not taken from the removed node', self.pop_f)
                continue
            n = nexts[-1].v
            self.check_word(e.v, n, x, U, field, 'pop', self.pop_f)
            ctx.count('stack_obligations', 2)
            for src in heads_of(t, x, H):
                order.ctx.count('ordering_obligations')
                if src.ord not in ACQ and not fence_between(t, src, nexts[-1]):
                    order.bad('pop-read', 'try_pop follows the link of a node it found by a %s load of the head: what the pusher wrote to the node may not be visible' % src.ord, self.pop_f)
            if any(q.k == 'cas' and q.i.d.get('ord2') not in ACQ for z in pops for q in z.ev) and isinstance(x, tuple) and x[0] == 'phi' and \
                    any(z.end == 'back' and isinstance(z.env['back'].get(x[1]), tuple) and 'casval' in repr(z.env['back'][x[1]]) for z in pops) and not fence_between(t, None, nexts[-1]):
                order.bad('pop-reread', 'try_pop retries with a head value obtained without acquire ordering', self.pop_f)
            if not order.acquire_after(t, e):
                order.bad('pop-acquire', 'try_pop takes a node without acquire ordering (%s): what its pusher wrote may not be visible' % e.ord, self.pop_f)
        if self.U is None:
            return self.und('no successful pop path')
        for t in pushes:
            if t.end == 'back':
                self.back(t, H, self.push_f)
            if t.end != 'ret':
                continue
            ok = [e for e in t.ev if e.k == 'cas' and t.facts.get(('casok', e.i.id))]
            if not ok:
                st = [e for e in t.ev if e.k == 'astore' and e.a == H]
                xch = [e for e in t.ev if e.k == 'rmw' and e.a == H]
                if xch:
                    self.und('push by exchange')
                else:
                    self.bad('push-lost', 'push returns without having published the nodes by compare-exchange' + (' (plain store to the head overwrites concurrent pushes)' if st else ''), self.push_f)
                continue
            if len(ok) > 1:
                self.bad('push-twice', 'push publishes the nodes twice', self.push_f)
                continue
            e = ok[0]
            x = e.x
            U = subst(self.U[1], self.U[0], x)
            trace.PTR.clear()
            field = {b[1] for b in bits(U) if isinstance(b, tuple) and b[0] == x}
            links = [s for s in t.ev if s.k in ('store', 'astore') and s.a == ('arg', 'last') and t.ev.index(s) < t.ev.index(e)]
            if not links:
                late = [s for s in t.ev if s.k in ('store', 'astore') and s.a == ('arg', 'last')]
                self.bad('push-link', 'the last pushed node is %s' % ('linked to the old top only after it was published' if late else 'never linked to the old top of the stack: everything below is lost'), self.push_f)
            elif bits(links[-1].v) != bits(U):
                deps = [b for b in bits(links[-1].v) if isinstance(b, tuple)]
                if all(b[0] != x for b in deps):
                    self.bad('push-link', 'the last pushed node is linked to something other than the top of the stack the compare-exchange expects', self.push_f)
                else:
                    self.und('link value %s' % show(links[-1].v))
            self.check_word(e.v, ('arg', 'first'), x, U, field, 'push', self.push_f)
            ctx.count('stack_obligations', 2)
            if not order.release_before(t, e):
                order.bad('push-release', 'push publishes nodes without release ordering (%s)' % e.ord, self.push_f)
        order.ctx.count('ordering_obligations', 2)

    @staticmethod
    def depends(t, terms):
        if t in terms:
            return True
        if isinstance(t, tuple):
            return any(Stack.depends(x, terms) for x in t[1:] if isinstance(x, tuple)) or (t[0] == 'p' and any(Stack.depends(x, terms) for m, _ in t[1] for x in m))
        return False

    def back(self, t, H, f):
        """a retry starts over from the current head"""
        cas = [e for e in t.ev if e.k == 'cas']
        if not cas:
            return
        e = cas[-1]
        if isinstance(e.x, tuple) and e.x[0] == 'phi':
            nv = t.env['back'].get(e.x[1])
            if nv is None:
                return self.und('retry value')
            fresh = nv == ('casval', e.i.id) or (isinstance(nv, tuple) and nv[0] == 'aload' and at(t, nv) == H) or \
                (isinstance(nv, tuple) and nv[0] == 'sel' and ('casval', e.i.id) in nv)
            if not fresh:
                self.bad('retry-stale', 'after a failed compare-exchange the retry does not use the current head', f)
            self.ctx.count('stack_obligations')
        if t.facts.get(('casok', e.i.id)):
            self.bad('retry-after-success', 'the loop goes round again after a successful compare-exchange', f)

    def check_word(self, v, ptr, x, U, field, what, f):
        """v = new head word: untag(v) == ptr, and the counter part differs from that of x"""
        trace.PTR.clear()
        trace.PTR[ptr] = (self.align, 48)
        vb = bits(v)
        # pointer part: substitute v into untag
        ub = bits(U)
        got = []
        for b in ub:
            got.append(vb[b[1]] if isinstance(b, tuple) and b[0] == x else b)
        want = bits(ptr)
        if got != want:
            wrong = [i for i in range(64) if got[i] != want[i]]
            known = all(g in (0, 1) or (isinstance(g, tuple) and g[0] in (ptr, x)) for g in (got[i] for i in wrong))
            if known:
                self.bad('%s-pointer' % what, 'the head written by %s does not decode to the intended node (bits %d..%d are %s)' % (what, wrong[0], wrong[-1], show_bit(got[wrong[0]])), f)
            else:
                self.und('%s head word %s' % (what, show(v)))
        rest = [i for i in range(64) if i not in field]
        tagb = [vb[i] for i in rest]
        same = [b for i, b in zip(rest, tagb) if b == (x, i)]
        const = [b for b in tagb if b in (0, 1)]
        other = [b for b in tagb if isinstance(b, tuple) and b[0] != x and b[0] != ptr]
        frm = [b for b in tagb if isinstance(b, tuple) and b[0] == ptr]
        if frm:
            self.bad('%s-tag' % what, 'pointer bits spill into the counter of the head', f)
        elif not other:
            self.bad('%s-tag' % what, 'the head written by %s carries no fresh counter value: a concurrent pop can mistake a recycled node for the one it saw (ABA)' % what, f)
        elif len(set(other)) < 16:
            self.bad('%s-tag' % what, 'the counter in the head has only %d changing bits; it wraps around quickly (ABA)' % len(set(other)), f)
        elif same:
            self.und('%s counter' % what)
        else:
            src = {b[0] for b in other}
            lo_ = min(rest)
            cnt = [s for s in src if isinstance(s, tuple) and s[0] == 'p']
            if len(src) == 1 and cnt and rest == list(range(lo_, 64)):
                d = sub(cnt[0], ('lshr', x, lo_))
                if not isinstance(d, int):
                    self.und('%s counter %s' % (what, show(cnt[0])))
                elif d % (1 << (64 - lo_)) == 0:
                    self.bad('%s-tag' % what, 'the counter of the head is not advanced by %s (ABA)' % what, f)
            elif not any(Stack.depends(s, [x]) for s in src):
                self.bad('%s-tag' % what, 'the counter of the head is not derived from the previous one (ABA)', f)
            else:
                self.und('%s counter' % what)


def heads_of(t, x, H):
    """loads of the head a value came from"""
    out = []
    vals = [x]
    if isinstance(x, tuple) and x[0] == 'phi':
        vals.append(t.n.get(('init', x[1])))
    return [e for e in t.ev if e.k == 'aload' and e.a == H and e.v in vals]


def fence_between(t, a, b):
    i = t.ev.index(a) if a is not None else -1
    return any(e.k == 'fence' and e.ord in ACQ for e in t.ev[i + 1:t.ev.index(b)])


def show_bit(b):
    return str(b) if isinstance(b, int) else 'bit %d of %s' % (b[1], show(b[0], 2))


class Order:
    """ordering obligations, reported to their own context"""

    def __init__(self, ctx):
        self.ctx = ctx

    def bad(self, key, text, f):
        self.ctx.violation('order %s' % key, '%s: %s' % (f.dem, text))

    @staticmethod
    def acquire_after(t, e):
        if e.ord in ACQ:
            return True
        k = t.ev.index(e)
        for x in t.ev[k + 1:]:
            if x.k == 'fence' and x.ord in ACQ:
                return True
            if x.k == 'aload' and x.a == e.a and x.ord in ACQ:
                return True
            if x.k in ('icall', 'call') and not (x.a or '').startswith(('pthread', 'std::cond')) if isinstance(x.a, str) else x.k == 'icall':
                return False
        return False

    @staticmethod
    def release_before(t, e):
        if e.ord in REL:
            return True
        k = t.ev.index(e)
        for x in reversed(t.ev[:k]):
            if x.k == 'fence' and x.ord in REL:
                return True
            if x.k in ('store', 'astore', 'icall') and not (x.k == 'astore'):
                return False
        return False


# ---- pending counter ----

def pbc(ctx, dec, wait, order, both=None):
    """completion hand-off between the last batch and the waiting caller"""
    P = ('arg', 'pbc')
    pair = None
    ctx.fn(dec.dem)
    if wait is None:
        ctx.count('undecided_shapes')
    else:
        ctx.fn(wait.dem)

    def bad(key, text, f):
        ctx.violation('pending ' + key, '%s: %s' % (f.dem, text))
    for t in traces(dec, ['pbc']):
        ctx.count('pending_paths')
        if t.end != 'ret':
            continue
        rm = [e for e in t.ev if e.k == 'rmw' and e.a == P]
        if not rm:
            if any(e.k in ('store', 'astore') and e.a == P for e in t.ev):
                bad('lost-update', 'the pending counter is decremented by a load and a store, not atomically', dec)
            elif any(e.k == 'cas' and e.a == P for e in t.ev):
                ctx.count('undecided_shapes')
            else:
                bad('no-decrement', 'a path does not decrement the pending counter', dec)
            continue
        if len(rm) != 1 or rm[0].v not in (-1, 0xffffffff):
            bad('wrong-decrement', 'the pending counter changes by something other than one', dec)
            continue
        e = rm[0]
        k = t.ev.index(e)
        order.ctx.count('ordering_obligations')
        if not order.release_before(t, e):
            order.bad('pending-release', 'a finished batch decrements the pending counter with %s ordering: its results may not be visible to the waiting caller' % e.ord, dec)
        ctx.count('pending_obligations')
        last = eqfact(('rmw', e.i.id), 1, t.facts)
        note = [x for x in t.ev[k:] if x.k == 'call' and x.a.startswith('std::condition_variable::notify')]
        early = [x for x in t.ev[:k] if x.k == 'call' and x.a.startswith('std::condition_variable::notify')]
        if last is False:
            continue
        if not note:
            bad('no-notify', 'the batch that brings the counter to zero %s' % ('notifies before it decrements: a caller that rechecks in between sleeps for ever' if early else 'does not wake the waiting caller on some path'), dec)
            continue
        if not any('notify_all' in x.a for x in note):
            bad('notify-one', 'only one waiter of the shared condition variable is woken; it may belong to another loop and the right one sleeps for ever', dec)
        nk = t.ev.index(note[0])
        locks = [x for x in t.ev[:nk] if x.k == 'call' and x.a == 'pthread_mutex_lock']
        held = None
        for x in locks:
            m = x.v[0]
            li = t.ev.index(x)
            un = [y for y in t.ev[li:] if y.k == 'call' and y.a == 'pthread_mutex_unlock' and y.v[0] == m]
            ui = t.ev.index(un[0]) if un else 10 ** 9
            if li > k or ui > k:
                held = m
        if held is None:
            bad('unlocked-notify', 'the waker does not pass through the waiter\'s mutex between decrement and notify: the wake-up can fall between the waiter\'s check and its sleep and be lost', dec)
        cv = note[0].v[0]
        pair = (held, cv)
        for x in t.ev[k + 1:]:
            if x.k in ('load', 'store', 'aload', 'astore', 'rmw', 'cas') and isinstance(sub(x.a, P), int):
                bad('use-after-final', 'the counter is touched again after the final decrement, when the caller may already have returned', dec)
    for t in traces(wait, ['pbc']) if wait else ():
        ctx.count('pending_paths')
        waits = [x for x in t.ev if x.k == 'call' and 'condition_variable::wait' in x.a]
        for w in waits:
            k = t.ev.index(w)
            ctx.count('pending_obligations')
            held = [x for x in t.ev[:k] if x.k == 'call' and x.a == 'pthread_mutex_lock']
            un = [x for x in t.ev[:k] if x.k == 'call' and x.a == 'pthread_mutex_unlock']
            if not held or (un and t.ev.index(un[-1]) > t.ev.index(held[-1])):
                bad('wait-unlocked', 'the caller sleeps without holding the mutex', wait)
                continue
            lk = t.ev.index(held[-1])
            chk = [x for x in t.ev[lk:k] if x.k == 'aload' and x.a == P]
            if not any(zero_fact(x.v, t.facts) is False for x in chk):
                bad('wait-unchecked', 'the caller sleeps without re-checking the counter while holding the mutex: the last batch may already have notified', wait)
            if pair and pair[0] is not None and (held[-1].v[0], w.v[0]) != pair:
                bad('wait-other', 'the caller sleeps on a different mutex or condition variable than the last batch notifies', wait)
        if t.end == 'ret':
            ctx.count('pending_obligations')
            order.ctx.count('ordering_obligations')
            z = [x for x in t.ev if x.k == 'aload' and x.a == P and zero_fact(x.v, t.facts) is True]
            if not z:
                bad('return-early', 'a path returns without having seen the counter reach zero: batches may still be running', wait)
            elif not any(order.acquire_after(t, x) for x in z):
                order.bad('pending-acquire', 'the caller leaves the loop on a %s load of the counter: results of the batches may not be visible' % z[-1].ord, wait)
    return pair


# ---- who runs popped tasks ----

def runners(ctx, f, ts, run_off):
    """every node taken off the stack is run exactly once and not touched afterwards"""
    for t in ts:
        if t.end == 'trap':
            continue
        ok = [e for e in t.ev if e.k == 'cas' and t.facts.get(('casok', e.i.id)) and is_pop(t, e)]
        for e in ok:
            k = t.ev.index(e)
            nd = pop_node(t, e)
            ctx.count('run_obligations')
            runs = [x for x in t.ev[k:] if x.k == 'icall' and x.v and x.v[0] == nd]
            if len(runs) != 1:
                ctx.violation('run %s %s' % ('twice' if runs else 'dropped', f.dem.split('(')[0]), '%s: a task taken off the stack is %s' % (f.dem, 'run %d times' % len(runs) if runs else 'not run on some path: its indices are skipped and its caller waits for ever'))
                continue
            fo = at(t, runs[0].a)
            if fo is not None and run_off is not None and sub(fo, nd) != run_off:
                ctx.violation('run callee', '%s: a popped task is run through the field at offset %s, but parallel_for stores the function at %d' % (f.dem, show(sub(fo, nd)), run_off))
            r = t.ev.index(runs[0])
            for x in t.ev[r + 1:]:
                if x.k in ('load', 'store', 'aload', 'astore', 'rmw', 'cas') and isinstance(sub(x.a, nd), int):
                    ctx.violation('run use-after', '%s: a task is touched after it ran, when its caller may have returned and its storage is gone' % f.dem)
        for x in t.ev:
            if x.k == 'icall' and not ok and x.v and isinstance(x.v[0], tuple) and is_node(t, x.v[0]):
                ctx.violation('run unclaimed', '%s: a task is run that this thread did not take off the stack' % f.dem)


def is_pop(t, e):
    return pop_node(t, e) is not None


def pop_node(t, e):
    """the node a compare-exchange removed: its next pointer, loaded before, became the head"""
    k = t.ev.index(e)
    for x in reversed(t.ev[:k]):
        if x.k in ('aload', 'load') and Stack.depends(e.v, [x.v]) and Stack.depends(x.a, [e.x]):
            return x.a
    return None


def is_node(t, v):
    return any(x.k in ('aload', 'load') and x.a == v for x in t.ev)


# ---- the batch splitter ----

def base_and_offset(a):
    """split an address into its pointer atom and the rest"""
    for m, c in poly(a).items():
        if len(m) == 1 and c == 1 and isinstance(m[0], tuple) and m[0][0] in ('alloca', 'call', 'ssa'):
            return m[0], sub(a, m[0])
    return None, a


def exact(t):
    """cancel exact divisions"""
    if isinstance(t, tuple) and t[0] == 'udiv':
        if t[1] == 0:
            return 0
        d = t[2]
        if isinstance(d, tuple):
            out = {}
            for m, c in poly(t[1]).items():
                if d not in m:
                    return t
                l = list(m)
                l.remove(d)
                out[tuple(l)] = out.get(tuple(l), 0) + c
            return unpoly(out)
    if isinstance(t, tuple) and t[0] == 'p':
        r = 0
        for m, c in t[1]:
            q = c
            for x in m:
                q = mul(q, exact(x))
            r = add(r, q)
        return r
    return t


class Loop:
    """the loop that fills in the task records, as functions of the iteration number J"""
    J = ('J',)

    def __init__(self, T, back, exits):
        h = back.n['to']
        self.h = h
        phis = back.env['back']
        self.map = []
        inside = {('phi', p) for p in phis}
        for p, nv in phis.items():
            init = back.n[('init', p)]
            step = sub(nv, ('phi', p))
            if any(Stack.depends(step, [q]) or step == q for q in inside):
                raise Undecided('loop variable is not affine')
            self.map.append((('phi', p), add(init, mul(step, self.J))))
        self.first_ev = 0
        # number of iterations
        self.count = None
        cond = [(c, v) for c, v in back.facts.items() if any(Stack.depends(c, [q]) for q in inside)]
        for c, v in cond:
            for x in exits:
                if c in x.facts and x.facts[c] != v and self.h in x.blk:
                    self.exit_after_body = None
                    self.cond, self.stay = c, v
                    self.exits = [y for y in exits if y.facts.get(c) == (not v)]
                    return
        raise Undecided('loop exit condition')

    def at(self, t):
        for p, v in self.map:
            t = subst(t, p, v)
        return t

    def iterations(self, dowhile):
        c, stay = self.cond, self.stay
        if c[0] != 'cmp':
            raise Undecided('loop condition ' + show(c))
        p = c[1] if stay else ir.NEG[c[1]]
        a, b = self.at(c[2]), self.at(c[3])
        if Stack.depends(b, [self.J]) or b == self.J:
            a, b, p = b, a, ir.SWAP[p]
        k = sub(subst(a, self.J, add(self.J, 1)), a)
        a0 = subst(a, self.J, 0)
        if Stack.depends(b, [self.J]) or b == self.J or not isinstance(k, int):
            raise Undecided('loop bound')
        # stays in the loop while a0 + k*j  p  b
        if k == 1 and p in ('ult', 'slt'):
            n = sub(b, a0)
        elif k == 1 and p in ('ule', 'sle'):
            n = add(sub(b, a0), 1)
        elif k == -1 and p in ('ugt', 'sgt'):
            n = sub(a0, b)
        elif k == -1 and p in ('uge', 'sge'):
            n = add(sub(a0, b), 1)
        elif p == 'ne' and k in (1, -1):
            n = mul(sub(b, a0), k)
        elif p == 'ne' and isinstance(k, int) and k:
            n = exactdiv(sub(b, a0), k)
        elif k > 0 and p == 'ult':
            n = exactdiv(sub(b, a0), k)
        else:
            raise Undecided('loop condition ' + show(c))
        return add(n, 1) if dowhile else n


def exactdiv(t, k):
    d = poly(t)
    if any(c % k for c in d.values()):
        raise Undecided('loop step')
    return unpoly({m: c // k for m, c in d.items()})


def parfor(ctx, f, lam, tpl, order):
    """f: the type-erased splitter, lam: the function each task runs, tpl: the splitter with its template front end"""
    for x in (f, lam, tpl):
        ctx.fn(x.dem)

    def bad(key, text, fn=f):
        ctx.violation('parfor ' + key, '%s: %s' % (fn.dem, text))
    A = {k: ('arg', k) for k in ('size', 'per', 'run', 'control')}
    # -- what a task does with its record
    offs = lambda_fields(ctx, lam, order)
    if offs is None:
        raise Undecided('task function')
    ts = traces(f, ['size', 'per', 'run', 'control'])
    ctx.count('parfor_paths', len(ts))
    exits = [t for t in ts if t.end != 'back']
    # -- the loop that stores the task function
    fills = {}
    for t in ts:
        if t.end == 'back':
            for e in t.ev:
                if e.k == 'store' and e.v == A['run'] and t.n['to'] in t.blk:
                    fills.setdefault(t.n['to'], t)
    if len(fills) != 1:
        raise Undecided('%d fill loops' % len(fills))
    back = next(iter(fills.values()))
    L = Loop(None, back, [t for t in ts if t is not back])
    rec = {}
    T = run_off = stride = None
    for e in back.ev:
        if e.k in ('store', 'astore') and e.v == A['run']:
            a = L.at(e.a)
            T, off = base_and_offset(a)
            if T is None:
                raise Undecided('task array')
            stride = sub(subst(off, L.J, add(L.J, 1)), off)
            run_at = off
    if not isinstance(stride, int) or not stride:
        raise Undecided('task stride')
    dowhile = any(e.k == 'store' and e.v == A['run'] and base_and_offset(e.a)[0] == T for x in L.exits[:1] for e in x.ev)
    B = exact(L.iterations(dowhile))
    up = stride > 0
    if not up:                      # filled from the last to the first: renumber
        L.map = [(p, subst(v, L.J, sub(sub(B, 1), L.J))) for p, v in L.map]
        stride = -stride
    start0 = None
    for e in back.ev:
        if e.k in ('store', 'astore'):
            b, off = base_and_offset(L.at(e.a))
            if b == T:
                rec[sub(off, mul(L.J, stride))] = exact(L.at(e.v))
    ctx.count('parfor_obligations')
    if any(not isinstance(k, int) for k in rec):
        raise Undecided('task record layout')
    lowest = min(rec)
    run_off = next(k for k, v in rec.items() if v == A['run']) - lowest
    rec = {k - lowest: v for k, v in rec.items()}
    O = lowest                      # byte offset of record 0 inside the array
    if any(not 0 <= k < stride for k in rec):
        raise Undecided('task record layout')
    # -- storage
    if T[0] == 'alloca':
        n = back.n.get(('count', T[1]))
        if n is not None and n != mul(stride, B):
            d = sub(n, mul(stride, B))
            if lo(d) is None:
                bad('storage', 'the task array has room for %s bytes but %s records of %d bytes are written' % (show(n), show(B), stride))
        elif n is not None and O != 0:
            bad('storage', 'the first task record does not start at the beginning of its storage')
    # -- at least one batch
    ctx.count('parfor_obligations')
    lb = lo(B)
    if lb is not None and lb < 1:
        bad('zero-batches', 'the number of batches %s may be zero' % show(B, 5))
    # -- the split
    S, E, nx, ctl = (rec.get(offs[k]) for k in ('start', 'end', 'next', 'control'))
    if ctl != A['control']:
        bad('control', 'tasks do not carry the control block where the task function reads it')
    if S is None or E is None:
        return bad('fields', 'the fields from which a task reads its range (offsets %d, %d) are not filled in' % (offs['start'], offs['end']))
    if run_off != offs.get('run', run_off):
        bad('run', 'the task function is stored at offset %d but fetched from %d' % (run_off, offs['run']))
    ctx.count('parfor_obligations', 3)
    s0 = exact(subst(S, L.J, 0))
    if s0 != 0:
        bad('first', 'the first batch starts at %s instead of 0: indices are skipped' % show(s0))
    s1 = exact(subst(S, L.J, add(L.J, 1)))
    if s1 != E:
        bad('adjacent', 'batch j ends at %s but batch j+1 starts at %s: indices are skipped or run twice' % (show(E), show(s1)))
    step = sub(s1, S)
    size = A['size']
    bounded(bad, S, step, B, size, A['per'], ctx, L.J)
    # -- what each exit path submits and runs
    n1 = 0
    for t in exits:
        if t.end != 'ret' or L.h not in t.blk:
            if t.end == 'ret':
                whole(ctx, t, A, bad)
            continue
        one = is_one(B, t.facts)
        n1 += 1
        P = (lambda x: subst(x, B, 1)) if one else (lambda x: x)
        T_ = lambda i: add(add(T, O), mul(stride, i))
        idx = lambda a: index(P(sub(a, add(T, O))), stride)
        push = [e for e in t.ev if e.k == 'cas' and t.facts.get(('casok', e.i.id)) and not is_pop(t, e)]
        pushr = rng = None
        pk = 10 ** 9
        patched = {}
        for e in t.ev:
            if e.k in ('store', 'astore') and base_and_offset(e.a)[0] == T:
                i, o = idx_field(P(sub(e.a, add(T, O))), stride)
                if i is not None and not any(Stack.depends(e.a, [p]) or e.a == p for p, _ in L.map):
                    patched.setdefault((repr(i), o), (i, []))[1].append((t.ev.index(e), e.v))
        if push:
            e = push[0]
            pk = t.ev.index(e)
            if len(push) > 1:
                bad('push-twice', 'tasks are submitted twice')
                continue
            fst = word_pointer(e.v, T, P)
            links = [s for s in t.ev[:pk] if s.k in ('astore', 'store') and base_and_offset(s.a)[0] == T and Stack.depends(s.v, [e.x])]
            if not links or fst is None:
                ctx.count('undecided_shapes')
                ctx.sample('undecided: submitted range of parallel_for')
                continue
            rng = (idx(fst), idx(links[-1].a))
        runs = [(k, e) for k, e in enumerate(t.ev) if e.k == 'icall' and e.v and base_and_offset(e.v[0])[0] == T]
        ctx.count('parfor_obligations', 4)
        if any(pop_node(t, x) for x in t.ev[:pk] if x.k == 'cas'):
            pass
        direct = [idx(e.v[0]) for _, e in runs]
        if None in direct or (rng and None in rng):
            ctx.count('undecided_shapes')
            ctx.sample('undecided: task index in parallel_for: %s' % [show(e.v[0]) for _, e in runs])
            continue
        last = P(sub(B, 1))
        cover(t, rng, direct, last, bad, one, P(B))
        for k, e in runs:
            fo = at(t, e.a)
            if e.a != A['run'] and fo is not None and base_and_offset(fo)[0] == T and P(sub(fo, e.v[0])) != run_off:
                bad('direct-callee', 'a batch is run through a field that does not hold the task function')
        # the chain of submitted tasks
        if rng and rng[0] != rng[1]:
            want = add(add(T, O), mul(stride, add(L.J, 1)))
            if nx is None:
                bad('chain', 'submitted tasks are not linked to each other: all but the first are lost')
            elif nx != want:
                bad('chain', 'task j is linked to %s instead of task j+1' % show(nx))
        # the last batch ends at size
        fix = patched.get((repr(last), offs['end']))
        e_last = exact(P(subst(E, L.J, sub(B, 1))))
        if fix:
            v = P(fix[1][-1][1])
            when = fix[1][-1][0]
            if v != size:
                bad('last', 'the last batch ends at %s instead of size' % show(v))
            use = [k for k, e in runs if idx(e.v[0]) == last] + ([pk] if rng and last in rng else [])
            if use and when > min(use):
                bad('last-late', 'the end of the last batch is corrected only after it was handed out')
        elif e_last != size:
            if one and any(d == last for d in direct) and False:
                pass
            bad('last', 'the last batch ends at %s instead of size: the remainder is dropped' % show(e_last))
        for key, (i, vs) in patched.items():
            if (repr(i), key[1]) != (repr(last), offs['end']) and key[1] in (offs['start'], offs['end']):
                bad('patch', 'the range of batch %s is overwritten after the split' % show(i))
        # completion
        cst = [(k, e) for k, e in enumerate(t.ev) if e.k in ('store', 'astore') and e.a == A['control']]
        if rng:
            if not cst or cst[-1][0] > pk:
                bad('pending-publish', 'tasks are submitted before they can see the pending counter')
                continue
            pbc_ = cst[-1][1].v
            cnt = [(k, e) for k, e in enumerate(t.ev) if e.k in ('store', 'astore') and e.a == pbc_]
            if not cnt or cnt[0][0] > pk:
                bad('pending-init', 'the pending counter is not set up before tasks are submitted')
                continue
            v = cnt[0][1].v
            v = v[2] if isinstance(v, tuple) and v[0] == 'tr' else v
            if v != B:
                bad('pending-count', 'the pending counter starts at %s for %s batches' % (show(v, 4), show(B, 4)))
            if [e for e in t.ev[pk:] if e.k in ('store', 'astore') and e.a == pbc_]:
                bad('pending-reset', 'the pending counter is overwritten while batches are running')
            z = [(k, x) for k, x in enumerate(t.ev) if x.k == 'aload' and x.a == pbc_ and zero_fact(x.v, t.facts) is True]
            after = max([pk] + [k for k, _ in runs])
            z = [x for x in z if x[0] > after]
            if not z:
                bad('return-early', 'a path returns after submitting tasks without having seen the pending counter reach zero')
            order.ctx.count('ordering_obligations')
            if z and not any(order.acquire_after(t, x) for _, x in z):
                order.bad('pending-acquire', 'parallel_for returns on a %s load of the pending counter' % z[-1][1].ord, f)
            late = [x for x in t.ev[pk:] if x.k == 'store' and base_and_offset(x.a)[0] == T and base_and_offset(x.a)[1] is not None and rng and idx_field(P(sub(x.a, add(T, O))), stride)[0] != last]
            if late:
                bad('write-after-submit', 'a task record is written after it was submitted')
    ctx.count('parfor_exits', n1)
    runners(ctx, f, [t for t in ts if L.h in t.blk], run_off)
    # -- the template front end hands over a control block whose counter starts out null
    off = offs['pbc']
    for t in traces(tpl, ['size', 'per']):
        runs = [k for k, e in enumerate(t.ev) if e.k == 'icall' and e.v and base_and_offset(e.v[0])[0]]
        push = [e for e in t.ev if e.k == 'cas' and t.facts.get(('casok', e.i.id)) and not is_pop(t, e)]
        if t.end == 'ret' and runs and not push:
            ctl = None
            init = [e for e in t.ev[:runs[0]] if e.k == 'store' and e.a and e.a[0] == 'alloca' and e.v == 0]
            ctx.count('parfor_obligations')
            if not init:
                bad('control-null', 'the counter pointer of a loop run directly is not null: the task decrements a counter that does not exist', tpl)
    return run_off


def whole(ctx, t, A, bad):
    """a path that never reaches the fill loop"""
    runs = [e for e in t.ev if e.k == 'icall']
    if not runs:
        zero = any(c[0] == 'cmp' and c[1] == 'eq' and c[2] == A['size'] and c[3] == 0 and v for c, v in t.facts.items())
        if not zero:
            bad('skipped', 'a path returns without running any batch')
    else:
        ctx.count('undecided_shapes')
        ctx.sample('undecided: parallel_for runs a batch outside the task array')


def bounded(bad, S, step, B, size, per, ctx, J):
    """(B-1)*step <= size"""
    if mul(J, step) != S:
        ctx.count('undecided_shapes')
        return
    if isinstance(step, tuple) and step[0] in ('sel', 'umax', 'umin'):
        for arm in step[1 + (step[0] == 'sel'):]:
            bounded(bad, mul(J, arm), arm, B, size, per, ctx, J)
        return
    if isinstance(step, tuple) and step[0] == 'udiv' and step[2] == B:
        d = sub(step[1], size)
        if d == 0:
            return
        l = lo(d)
        if l is not None and d != 0:
            bad('range', 'batches of %s/%s indices may run past size' % (show(step[1], 2), show(B, 2)))
            return
        if lo(sub(0, d)) is not None:
            return
        # size + B - 1 and the like: round up
        dd = poly(d)
        if dd.get((B,), 0) >= 1:
            bad('range', 'batch length is rounded up: the last batches may start past size')
            return
        ctx.count('undecided_shapes')
        return
    if step == per and atmost(B, ('udiv', size, per)):
        return
    d = poly(step)
    u = [m for m in d if len(m) == 1 and m[0] == ('udiv', size, B)]
    if u and d[u[0]] >= 1 and lo(sub(step, u[0][0])) is not None and sub(step, u[0][0]) != 0:
        bad('range', 'batch length %s is more than size / batches: the last batches may run past size' % show(step, 3))
        return
    ctx.count('undecided_shapes')
    ctx.sample('undecided: batch length %s' % show(step, 4))


def idx_field(off, stride):
    """byte offset -> (record index, field offset)"""
    d = poly(off)
    c = d.pop((), 0)
    if any(k % stride for k in d.values()):
        return None, None
    i = unpoly({m: k // stride for m, k in d.items()})
    return add(i, c // stride), c % stride


def index(off, stride):
    i, o = idx_field(off, stride)
    return i if o == 0 else None


def word_pointer(v, T, P):
    """the pointer encoded in a freshly pushed head word: the term whose bits make up its pointer part"""
    for cand in pointers(v, T):
        return cand
    return None


def pointers(v, T):
    if isinstance(v, tuple):
        b, _ = base_and_offset(v)
        if b == T:
            yield v
            return
        for x in v[1:]:
            if isinstance(x, tuple):
                if v[0] == 'p':
                    for m, _ in v[1]:
                        for y in m:
                            yield from pointers(y, T)
                    return
                yield from pointers(x, T)


def cover(t, rng, direct, last, bad, one, B):
    """every batch 0..last is submitted or run directly, once"""
    if one:
        if rng is None and direct == [0]:
            return
        if rng is None and len(direct) != 1:
            return bad('cover', 'a loop of one batch runs it %d times' % len(direct))
        return bad('cover', 'a loop of one batch runs batch %s%s' % (', '.join(show(d) for d in direct) or 'none', ' and submits others' if rng else ''))
    if rng is None:
        return bad('cover', 'a path with several batches runs only %s directly and submits none' % (', '.join('batch ' + show(d) for d in direct) or 'none'))
    f, l = rng
    if len(direct) > 1:
        return bad('cover', 'more than one batch is run directly')
    if not direct:
        if (f, l) != (0, last):
            bad('cover', 'batches %s to %s of 0 to %s are submitted and none is run directly' % (show(f), show(l, 4), show(last, 4)))
        return
    d = direct[0]
    if (f == 0 and l == sub(last, 1) and d == last) or (f == 1 and l == last and d == 0):
        return
    bad('cover', 'batches %s to %s are submitted and batch %s run directly, which does not cover 0 to %s once' % (show(f), show(l, 4), show(d, 4), show(last, 4)))


def lambda_fields(ctx, lam, order):
    """offsets from which the task function reads its range, control block and counter"""
    t0 = ('arg', 't')
    out = None

    def bad(key, text):
        ctx.violation('task ' + key, '%s: %s' % (lam.dem, text))
    for t in traces(lam, ['t']):
        ctx.count('task_paths')
        if t.end != 'ret':
            continue
        calls = [(k, e) for k, e in enumerate(t.ev) if e.k in ('call', 'icall') and not (isinstance(e.a, str) and e.a.startswith(('std::cond', 'pthread_')))]
        ctx.count('task_obligations', 3)
        if len(calls) != 1:
            bad('calls', 'a task runs the loop body %d times' % len(calls))
            continue
        k, e = calls[0]
        if len(e.v) < 2:
            raise Undecided('loop body arguments')
        sa, ea = at(t, e.v[-2]), at(t, e.v[-1])
        so, eo = (sub(x, t0) if x is not None else None for x in (sa, ea))
        rm = [(j, x) for j, x in enumerate(t.ev) if x.k == 'rmw']
        pb = None
        if rm:
            p = rm[0][1].a
            pa = at(t, p)
            if pa is not None:
                for j, x in enumerate(t.ev):
                    if x.k == 'load' and isinstance(sub(pa, x.v), int) and isinstance(sub(x.a, t0), int):
                        pb = (sub(x.a, t0), sub(pa, x.v), p)
            if len(rm) != 1 or rm[0][1].v != -1:
                bad('decrement', 'a task changes the pending counter %d times' % len(rm))
            if rm[0][0] < k:
                bad('decrement-early', 'a task announces completion before running the loop body')
            if pb is None:
                raise Undecided('counter of a task')
            if zero_fact(p, t.facts) is True:
                bad('decrement-null', 'a task decrements a counter it knows to be null')
            for x in t.ev[rm[0][0] + 1:]:
                if x.k in ('load', 'store', 'aload', 'astore', 'rmw', 'cas') and any(Stack.depends(x.a, [y]) or x.a == y for y in (t0, p)):
                    bad('use-after-final', 'a task touches its record or control block after its final decrement, when the caller may have returned')
            got = {'start': so, 'end': eo, 'control': pb[0], 'pbc': pb[1]}
            if any(not isinstance(v, int) for v in got.values()):
                raise Undecided('task fields')
            if out is not None and out != got:
                raise Undecided('task fields differ between paths')
            out = got
        else:
            ld = [x for x in t.ev if x.k == 'load' and zero_fact(x.v, t.facts) is True]
            if not ld:
                bad('no-decrement', 'a task of a submitted loop finishes without decrementing the pending counter: the caller waits for ever')
    if out is None:
        ctx.violation('task no-decrement', '%s: no path of the task function decrements the pending counter' % lam.dem)
        return None
    out['next'] = 0
    return out


# ---- reference counts ----

def arc(ctx, fs, order):
    A = ('arg', 'a')
    inc, dec, uni = (fs['fu::op__arc_' + k] for k in ('incr', 'decr', 'unique'))
    for f in (inc, dec, uni):
        ctx.fn(f.dem)

    def bad(key, text, f):
        ctx.violation('arc ' + key, '%s: %s' % (f.dem, text))
    for t in traces(inc, ['a']):
        if t.end != 'ret':
            continue
        ctx.count('ordering_obligations')
        rm = [e for e in t.ev if e.k == 'rmw']
        if any(e.k in ('store', 'astore') for e in t.ev) or (not rm and not any(e.k == 'cas' for e in t.ev)):
            bad('incr-atomic', 'the share count is not incremented by one atomic operation: concurrent shares are lost', inc)
    one = None
    for t in traces(dec, ['a']):
        if t.end != 'ret':
            continue
        ctx.count('ordering_obligations')
        rm = [e for e in t.ev if e.k == 'rmw']
        if any(e.k in ('store', 'astore') for e in t.ev) or (not rm and not any(e.k == 'cas' for e in t.ev)):
            bad('decr-atomic', 'the share count is not decremented by one atomic operation: two owners dropping it at once both or neither release the storage', dec)
            continue
        for e in rm:
            if eqfact(e.x, 0, t.facts) is False:
                k = t.ev.index(e)
                if not order.release_before(t, e):
                    bad('decr-release', 'a share is dropped with %s ordering: accesses made through it may be reordered after the storage is released elsewhere' % e.ord, dec)
                continue
            if not order.release_before(t, e):
                bad('decr-release', 'a share is dropped with %s ordering: accesses made through it may be reordered after the storage is released elsewhere' % e.ord, dec)
            if not order.acquire_after(t, e):
                bad('decr-acquire', 'the last share is dropped with %s ordering and no acquire: the storage is released without seeing the other owners\' accesses' % e.ord, dec)
    for t in traces(uni, ['a']):
        if t.end != 'ret':
            continue
        ctx.count('ordering_obligations')
        ld = [e for e in t.ev if e.k in ('aload', 'rmw', 'cas')]
        if not ld:
            bad('unique-atomic', 'the share count is read non-atomically', uni)
            continue
        if t.val == 0:
            continue
        if not any(order.acquire_after(t, e) for e in ld):
            bad('unique-acquire', 'storage is taken to be uniquely owned on a %s load: it is then written while the reads of an owner that just dropped its share are not ordered before' % ld[-1].ord, uni)


# ---- the loops generated code hands to parallel_for ----

def generated(ctx, name, bc):
    out = env.irdump([bc], ['-inline', '-root', r'fu::parallel_for<|parallel_for_\w+\(', '-keep', '.', '-passes', 'function(sroa,early-cse,simplifycfg)', '-notypes'])
    fs = [ir.Fn(d) for d in map(json.loads, out.decode().splitlines()) if 'blocks' in d]
    for f in fs:
        if f.dem.endswith('operator()(unsigned long, unsigned long) const'):
            range_loop(ctx, name, f)
            continue
        try:
            ts = traces(f)
        except OverflowError:
            continue
        for t in ts:
            for e in t.ev:
                if e.k == 'call' and isinstance(e.a, str) and e.a.startswith('void fu::parallel_for<') and '(unsigned long, unsigned long, ' in e.a and 'lambda' not in e.a.split('(unsigned long, unsigned long, ')[-1].split(' const&)')[-1]:
                    ctx.count('generated_calls')
                    ctx.fn(f.dem)
                    size, per = e.v[0], e.v[1]
                    l = lo(strip(per))
                    if l is not None and l < 1:
                        ctx.violation('generated batch-size %s' % name, '%s: %s asks for batches of %s indices, which may be zero: parallel_for divides by it' % (name, f.dem.split('(')[0], show(per)))
                    s = strip(size)
                    if isinstance(s, tuple) and s[0] != 'arg':
                        ctx.count('undecided_shapes')


def strip(t):
    while isinstance(t, tuple) and t[0] in ('sx', 'zx', 'tr'):
        t = t[2]
    return t


def range_loop(ctx, name, f):
    """a loop body lambda visits Start..End-1, each once"""
    ctx.fn(f.dem)
    ctx.count('generated_loops')
    ids = [a['nm'] for a in f.args]
    ts = traces(f, ['this', 'Start', 'End'])
    who = f.dem.split('(')[0]

    def bad(key, text):
        ctx.violation('generated %s %s' % (key, name), '%s: loop body of %s: %s' % (name, who, text))
    backs = [t for t in ts if t.end == 'back']
    if len({t.n['to'] for t in backs}) != 1:
        ctx.count('undecided_shapes')
        return
    h = backs[0].n['to']
    for t in backs:
        phis = t.env['back']
        var = [(p, sub(nv, ('phi', p)), t.n[('init', p)]) for p, nv in phis.items()]
        calls = [e for e in t.ev if e.k in ('call', 'icall') and e.v and any(Stack.depends(('x', a), [('phi', p)]) for a in e.v for p, _, _ in var)]
        allc = [e for e in t.ev if e.k in ('call', 'icall')]
        if len(calls) != 1:
            if not calls and not allc:
                bad('skip', 'an iteration does not visit its index')
            elif len(calls) > 1:
                ctx.count('undecided_shapes')
            continue
        ctx.count('generated_obligations', 3)
        iv = next((a for a in calls[0].v if any(Stack.depends(('x', a), [('phi', p)]) for p, _, _ in var)))
        ps = [(p, st, i0) for p, st, i0 in var if Stack.depends(('x', iv), [('phi', p)])]
        p, st, i0 = ps[0]
        first = strip(subst(iv, ('phi', p), i0))
        if not isinstance(st, int):
            ctx.count('undecided_shapes')
            continue
        d = sub(subst(iv, ('phi', p), add(('phi', p), 1)), iv)
        k = d * st if isinstance(d, int) else None
        cond = [(c, v) for c, v in t.facts.items() if Stack.depends(c, [('phi', p)])]
        if k is None or not cond or cond[0][0][0] != 'cmp':
            ctx.count('undecided_shapes')
            continue
        c, v = cond[0]
        pr, a, b = (c[1] if v else ir.NEG[c[1]]), c[2], c[3]
        if not Stack.depends(('x', a), [('phi', p)]):
            a, b, pr = b, a, ir.SWAP[pr]
        off = sub(iv, a)            # visited index relative to the compared value
        S, E = ('arg', 'Start'), ('arg', 'End')
        if k == 1 and strip(b) == E and pr in ('slt', 'ult', 'sle', 'ule', 'ne') and isinstance(off, int):
            # visits first, first+1, ... while the compared value is below End
            o = off - (1 if pr in ('sle', 'ule') else 0)
            before = [x for x in ts if x.end == 'ret' and h in x.blk and any(e.i is calls[0].i for e in x.ev)]
            if first != S:
                bad('first', 'the first index visited is %s, not the start of the batch' % show(first))
            if pr in ('sle', 'ule') and not before:
                bad('last', 'the loop runs one past the end of the batch')
            elif off != 0 and not before:
                bad('last', 'the indices visited are shifted by %d' % off)
        elif k not in (1, -1) and k is not None and first == S:
            bad('stride', 'the loop visits every %d-th index' % k)
        else:
            ctx.count('undecided_shapes')
