"""The block allocator (include/fu/mem/arc.cpp), decided for every requested size: the request is split
into cells around each power of two and every cell is interpreted with intervals and known bits."""
import os
from . import env, ir
from .ranges import I, P, C, Interp, State, STOP, Undecided, mask, bad, compare

SRC = os.path.join(env.REPO, 'include/fu/mem/arc.cpp')
HDR = 16
DIE = ('exit', '_exit', 'abort', '__assert_fail', '_ZSt9terminatev', 'quick_exit', '_Exit', '__cxa_throw')


def cells(top=62):
    """partition of [0, 2^top), more than 2^31 elements of any type, into intervals, fine near each power of two"""
    cuts = {0, 1, 1 << top}
    for k in range(0, top + 1):
        for d in (-HDR, 0):
            for e in (0, 1):
                x = (1 << k) + d + e
                if 0 <= x < 1 << top:
                    cuts.add(x)
    for x in (0x7fffffff, 0x7fffffff - HDR, 0x80000000 - HDR):
        cuts |= {x, x + 1}
    c = sorted(cuts)
    return [(a, b - 1) for a, b in zip(c, c[1:])]


class Client:
    def __init__(self, nofail=True):
        self.nofail = nofail
        self.viol, self.und = [], []

    def bad(self, i, what):
        self.viol.append((what, i.where()))

    def unsure(self, i, what):
        self.und.append((what, i.where() if i is not None else '?'))

    def access(self, it, S, i, p, n, write):
        n = n if isinstance(n, I) else C(64, n)
        if p is None:
            v = it.val(S, i.ops[1] if i.op == 'store' else i.ops[0])
            if isinstance(v, I) and v.w == 64 and v.lo < 4096:
                self.bad(i, 'writes through the null pointer malloc returned' if write else 'reads through the null pointer malloc returned')
            else:
                if self.nofail:
                    self.unsure(i, 'access through an untracked pointer')
            return
        if p.obj in S.size and S.size[p.obj] is not None:
            size = S.size[p.obj]
            if p.obj in self.freed(S):
                self.bad(i, 'touches the block after freeing it')
                return
            if n.const == 0:
                return
            end = p.off.hi + n.hi
            if p.off.lo + n.lo > size.hi:
                self.bad(i, '%s bytes [%d, %d) of a block of %r bytes' % ('writes' if write else 'reads', p.off.lo, p.off.lo + n.lo, size))
            elif end > size.lo:
                if size.const is not None and it.c.attained(p, n):
                    self.bad(i, '%s up to byte %d of a block of %r bytes' % ('writes' if write else 'reads', end, size))
                else:
                    self.unsure(i, 'access not shown in bounds')
            if write:
                S.ev.append(('write', p, n, i))

    def attained(self, p, n):
        return False

    def freed(self, S):
        return [e[1].obj for e in S.ev if e[0] == 'free']

    def call(self, it, S, i, args):
        n = i.callee or ''
        if n in DIE or i.d.get('noret'):
            S.ev.append(('die', n, args))
            return STOP
        if n in ('malloc', 'aligned_alloc', 'calloc', '_Znwm'):
            z = args[0] if n != 'aligned_alloc' else args[1]
            if not isinstance(z, I):
                z = I(64)
            S.ev.append(('alloc', z, i))
            if not self.nofail:
                return C(64, 0)
            o = 'block%d' % sum(e[0] == 'alloc' for e in S.ev)
            S.size[o] = z
            return P(o, C(64, 0))
        if n in ('free', '_ZdlPv', '_ZdlPvm'):
            p = args[0]
            if isinstance(p, P):
                if p.obj in self.freed(S):
                    self.bad(i, 'frees the block twice')
                S.ev.append(('free', p, i))
            else:
                S.ev.append(('free?', p, i))
            return None
        w = None
        import re
        m = re.match(r'i(\d+)$', i.ty or '')
        if m:
            w = int(m.group(1))
        return I(w) if w else None


def programs(ctx):
    for defs, tag in (((), 'debug'), (('-DNDEBUG',), 'release'), (('-DNDEBUG', '-DfU_X', '-Dfu_RETAIL'), 'retail')):
        bc = env.native_bc(SRC, defs)
        prog = ir.load([bc], ('-inline', '-root', '^fu_(ARC|UNIQ)_(DE)?ALLOC$', '-passes', 'function(sroa,early-cse,simplifycfg)'))
        fs = {f.name.replace('.inl', ''): f for f in prog.fns.values()}
        yield tag, fs


def leq_const(a, n):
    return a.hi <= n


def run(ctx):
    ctx.rule('allocator: for every requested byte count the block it mallocs holds header + reported bytes, reported >= requested, reported <= 2^31-1; otherwise the process exits')
    ctx.rule('allocator: a new shared block has count zero, payload directly behind its 16-byte header, 16-byte aligned; releasing it frees the malloc pointer once and never touches bytes outside it')
    ctx.rule('allocator: the leak counters an allocation raises are lowered by the same amounts by its release')
    ctx.rule('allocator: when malloc fails the process exits before touching the block')
    for tag, fs in programs(ctx):
        for kind in ('ARC', 'UNIQ'):
            A, D = fs.get('fu_%s_ALLOC' % kind), fs.get('fu_%s_DEALLOC' % kind)
            if A is None or D is None:
                raise env.Broken('fu_%s_ALLOC / fu_%s_DEALLOC not found' % (kind, kind))
            ctx.fn('%s (%s)' % (A.name.replace('.inl', ''), tag))
            ctx.fn('%s (%s)' % (D.name.replace('.inl', ''), tag))
            one(ctx, tag, kind, A, D)
    elements(ctx)
    ctx.need('allocator_cells', 100)
    ctx.need('element_cells', 100)


def elements(ctx):
    """fu_ALLOC<T>: element counts"""
    import re
    ctx.rule('fu_ALLOC<T>: for every count >= 1 the new count is at least the requested one and count * sizeof(T) bytes fit in the block')
    src = os.path.join(env.VERIF, 'harness/rt_alloc.cpp')
    for defs, tag in (((), 'debug'), (('-DNDEBUG',), 'release')):
        prog = ir.load([env.native_bc(src, defs)], ('-inline', '-root', '^al__', '-passes', 'function(sroa,early-cse,simplifycfg)'))
        for F in prog.fns.values():
            m = re.match(r'al__(\w+?)__(\d+)', F.name)
            if not m:
                continue
            kind, sz = m.group(1), int(m.group(2))
            ctx.fn('fu_ALLOC<%d bytes, %s> (%s)' % (sz, kind, tag))
            cuts = {1, 2, 1 << 31}
            for k in range(4, 34):
                for d in (0, HDR):
                    x = ((1 << k) - d) // sz
                    cuts |= {y for y in (x, x + 1) if 1 <= y < 1 << 31}
            c = sorted(cuts)
            sp = Splitter(ctx, 'fu_ALLOC<%d bytes> %s, count' % (sz, kind), 30)

            def cell_(lo, hi):
                und, cl, S = [], Client(), State()
                S.size['n'], S.size['p'] = C(64, 4), C(64, 8)
                S.mem['n'] = {(0, 4): I(32, lo, hi)}
                S.env[F.argids[0]], S.env[F.argids[1]] = P('p', C(64, 0)), P('n', C(64, 0))
                where = 'fu_ALLOC of %s elements of %d bytes (%s, %s build)' % (lo if lo == hi else '%d..%d' % (lo, hi), sz, kind, tag)
                it = Interp(F, cl)
                ctx.count('element_cells')
                try:
                    it.run(S)
                except Undecided as e:
                    return [str(e)]
                for what, w in cl.viol:
                    ctx.violation('fu_ALLOC: %s' % what.split(' bytes [')[0], '%s: %s: %s' % (w, where, what))
                und += ['%s at %s' % u for u in cl.und]
                rets = [r for r in it.results if r[0] == 'ret']
                if not rets and hi * sz <= 1 << 30:
                    ctx.violation('fu_ALLOC: refuses a possible request', '%s: %s: never returns' % (F.where(), where))
                for _, _, T in rets:
                    n, p = T.mem.get('n', {}).get((0, 4)), T.mem.get('p', {}).get((0, 8))
                    if not isinstance(p, P) or not isinstance(n, I) or p.off.const is None or T.size.get(p.obj) is None:
                        und.append('result')
                        continue
                    M = T.size[p.obj]
                    if n.hi < lo or n.const is not None and n.const < hi or n.lo >> 31:
                        ctx.violation('fu_ALLOC: count below request', '%s: %s: reports %r elements' % (F.where(), where, n))
                    elif n.lo < hi or n.hi >> 31:
                        und.append('count %r' % n)
                    if p.off.const + n.lo * sz > M.hi or n.const is not None and M.const is not None and p.off.const + n.const * sz > M.const:
                        ctx.violation('fu_ALLOC: count exceeds block', '%s: %s: reports %r elements at offset %d of a block of %r bytes' % (F.where(), where, n, p.off.const, M))
                    elif p.off.const + n.hi * sz > M.lo:
                        und.append('%r elements in %r bytes' % (n, M))
                return und
            for a, b in zip(c, c[1:]):
                sp.run(a, b - 1, cell_)


def report(ctx, kind, tag, cl, cell):
    for what, where in cl.viol:
        ctx.violation('fu_%s allocator: %s' % (kind, what.split(' of a block')[0] if 'bytes [' not in what else 'out of bounds'),
                      '%s: fu_%s (%s build), %s: %s' % (where, kind, tag, cell, what))
    return ['%s at %s' % u for u in cl.und]


class Splitter:
    """interpret cells, splitting the ones the domain does not decide"""
    def __init__(self, ctx, name, budget=600):
        self.ctx, self.name, self.budget = ctx, name, budget

    def run(self, lo, hi, one, depth=0):
        und = one(lo, hi)
        self.ctx.count('allocator_cells')
        if not und:
            return
        if lo < hi and depth < 5 and self.budget > 0 and not self.ctx.viol and self.ctx.counts['allocator_cells'] < 9000:
            self.budget -= 1
            mid = (lo + hi) // 2
            for a, b in ((lo, lo), (lo + 1, mid), (mid + 1, hi - 1), (hi, hi)):
                if a <= b and (a > lo or a == b):
                    self.run(a, b, one, depth + 1)
            return
        self.ctx.count('undecided_allocator')
        self.ctx.sample('allocator undecided: %s (%s %s..%s)' % (und[0], self.name, lo, hi))


def one(ctx, tag, kind, A, D):
    outcomes = {}
    hdr = HDR if kind == 'ARC' else 0
    sp = Splitter(ctx, 'fu_%s_ALLOC %s, request' % (kind, tag))

    def cell_(lo, hi):
        und = []
        for nofail in (True, False):
            cl = Client(nofail)
            S = State()
            S.size['arg'] = C(64, 8)
            S.mem['arg'] = {(0, 8): I(64, lo, hi)}
            S.env[A.argids[0]] = P('arg', C(64, 0))
            cell = 'request of %s bytes%s' % (lo if lo == hi else '%d..%d' % (lo, hi), '' if nofail else ', malloc failing')
            it = Interp(A, cl)
            try:
                it.run(S)
            except Undecided as e:
                und.append(str(e))
                continue
            ctx.count('allocator_paths', len(it.results))
            und += report(ctx, kind, tag, cl, cell)
            if nofail and hi <= 1 << 30 and not any(r[0] == 'ret' for r in it.results):
                ctx.violation('fu_%s_ALLOC: refuses a possible request' % kind, '%s: fu_%s_ALLOC (%s build), %s: never returns' % (A.where(), kind, tag, cell))
            elif nofail and hi <= 1 << 30 and any(r[0] == 'stop' for r in it.results):
                und.append('may refuse a possible request')
            if not nofail:
                ctx.count('malloc_failures', sum(any(e[0] == 'alloc' for e in T.ev) for _, _, T in it.results))
            for how, v, T in it.results:
                if how != 'ret':
                    continue
                ctx.count('allocator_obligations', 6)

                def V(key, text):
                    ctx.violation('fu_%s_ALLOC: %s' % (kind, key), '%s: fu_%s_ALLOC (%s build), %s: %s' % (A.where(), kind, tag, cell, text))

                U = und.append
                R = T.mem.get('arg', {}).get((0, 8))
                allocs = [e for e in T.ev if e[0] == 'alloc']
                if not nofail:
                    if allocs:
                        V('returns after malloc failed', 'returns to the caller although malloc failed')
                    continue
                if not isinstance(v, P) or len(allocs) != 1 or not str(v.obj).startswith('block'):
                    if len(allocs) > 1 or isinstance(v, I) and v.const == 0:
                        V('returned block', 'returns %r after %d allocations' % (v, len(allocs)))
                    else:
                        U('returned pointer %r' % (v,))
                    continue
                if any(e[0] == 'free' for e in T.ev):
                    V('returned block', 'returns a block it freed')
                if not isinstance(R, I) or v.off.const is None:
                    U('reported size')
                    continue
                M = T.size[v.obj]
                off = v.off.const
                if R.hi < lo or (R.const is not None and R.hi < hi):
                    V('reports less than requested', 'reports %r bytes' % R)
                elif R.lo < hi:
                    U('reported %r >= requested' % R)
                if R.lo > 0x7fffffff:
                    V('reported size exceeds int', 'reports %r bytes, which a vector cannot represent' % R)
                elif R.hi > 0x7fffffff:
                    U('reported <= 2^31-1')
                if off + R.lo > M.hi or (M.const is not None and R.const is not None and off + R.const > M.const):
                    V('reports more than it allocated', 'reports %r bytes at offset %d of a malloc of %r bytes' % (R, off, M))
                elif off + R.hi > M.lo and not (M.const is None and same_plus(R, M, off)):
                    U('reported %r fits in malloc of %r' % (R, M))
                if off % 16:
                    V('misaligned', 'the payload is not aligned to 16 bytes')
                if off != hdr:
                    V('payload offset', 'the payload lies %d bytes behind the malloc pointer, the vectors expect %d' % (off, hdr))
                if R.lo < 128 - hdr:
                    U('minimum block size')
                if kind == 'ARC':
                    c = it.bytes(T, v.obj, 0, 4) or T.mem.get(v.obj, {}).get((0, 4))
                    if c is None:
                        V('share count not initialised', 'the share count of the new block is not initialised')
                    elif c.const is None:
                        U('share count %r' % c)
                    elif c.const != 0:
                        V('share count not zero', 'the share count of the new block is %d, one owner is 0' % c.const)
                k = (M.key(), R.key())
                if k not in outcomes:
                    outcomes[k] = (M, R, dict(T.mem.get(v.obj, {})), counters(T), cell)
        return und
    for lo, hi in cells():
        sp.run(lo, hi, cell_)
    for M, R, mem, cnt, cell in list(outcomes.values())[:80]:
        release(ctx, tag, kind, D, M, R, mem, cnt, cell)
    if not outcomes:
        raise env.Broken('no request succeeds in fu_%s_ALLOC' % kind)


def same_plus(R, M, off):
    return R.hi - R.lo == M.hi - M.lo and R.lo + off <= M.lo and R.hi + off <= M.hi


def counters(T):
    """net change of each global counter, or None where unknown"""
    out = {}
    for e in T.ev:
        if e[0] != 'rmw' or not isinstance(e[1], P) or e[1].obj[0] != 'g':
            continue
        g = (e[1].obj[1], e[1].off.const)
        v = e[3]
        if not isinstance(v, I) or v.const is None or e[2] not in ('add', 'sub') or g in out and out[g] is None:
            out[g] = None
            continue
        d = v.const if e[2] == 'add' else -v.const
        out[g] = (out.get(g, 0) + d) & mask(v.w)
    return out


def release(ctx, tag, kind, D, M, R, mem, cnt, cell):
    """the same block given back: any size floor(R/s)*s, s in 1..R, lies in (R/2, R]"""
    if R.const is None or M.const is None:
        ctx.count('undecided_allocator')
        return
    B, n = M.const, R.const
    lo, cut = n // 2 + 1, []
    k = 0
    while 1 << k < n:
        if lo <= 1 << k < n:
            cut.append((1 << k) + 1)
        k += 1
    pts = [lo] + cut + [n + 1]
    parts = sorted({(a, b - 1) for a, b in zip(pts, pts[1:]) if a <= b - 1} | {(n, n)})
    sp = Splitter(ctx, 'fu_%s_DEALLOC %s, block of %d, release of' % (kind, tag, B), 60)

    def cell_(a, b):
        und = []
        if True:
            cl = Client()
            S = State()
            S.size['block1'] = M
            S.mem['block1'] = dict(mem)
            if kind == 'ARC':            # count as the last release left it: any value
                S.mem['block1'] = {k: v for k, v in mem.items() if k[0] >= 4}
                for k, v in mem.items():
                    if k[0] < 4 and k[0] + k[1] > 4:
                        S.mem['block1'][(4, k[0] + k[1] - 4)] = v
            # payload belongs to the vector: only header facts survive
            S.mem['block1'] = {k: v for k, v in S.mem['block1'].items() if k[0] + k[1] <= (HDR if kind == 'ARC' else 0)}
            S.env[D.argids[0]] = P('block1', C(64, 0))
            S.env[D.argids[1]] = I(64, a, b)
            where = 'release of %s bytes of a block of %d' % (a if a == b else '%d..%d' % (a, b), B)
            it = Interp(D, cl)
            try:
                it.run(S)
            except Undecided as e:
                return [str(e)]
            und += report(ctx, kind, tag, cl, where)

            def V(key, text):
                ctx.violation('fu_%s_DEALLOC: %s' % (kind, key), '%s: fu_%s_DEALLOC (%s build), %s: %s' % (D.where(), kind, tag, where, text))
            ok = [r for r in it.results if r[0] == 'ret']
            die = [r for r in it.results if r[0] == 'stop']
            if die and not ok:
                V('stops on a valid block', 'does not return: %s' % ', '.join(sorted({str(e[1]) for r in die for e in r[2].ev if e[0] == 'die'})))
            elif die:
                und.append('may stop')
            for _, _, T in ok:
                ctx.count('allocator_obligations', 3)
                fr = [e for e in T.ev if e[0] == 'free']
                if [e for e in T.ev if e[0] == 'free?']:
                    und.append('frees an unknown pointer')
                elif not fr:
                    V('block not freed', 'the block is never given back to the system')
                elif fr[0][1].obj != 'block1' or fr[0][1].off.const != 0:
                    V('wrong pointer freed', 'frees %r instead of the pointer malloc returned' % fr[0][1])
                c2 = counters(T)
                for g in sorted(set(c2), key=str):
                    if g in cnt and cnt[g] is not None and c2[g] is not None:
                        ctx.count('allocator_counter_pairs')
                        if (cnt[g] + c2[g]) & mask(32):
                            V('leak counter unbalanced', 'counter %s rises by %d on allocation and changes by %d on release' % (g[0], cnt[g], c2[g] - (1 << 32) if c2[g] >> 31 else c2[g]))
                    elif g in cnt:
                        und.append('counter %s' % g[0])
                for g in sorted(set(cnt) - set(c2), key=str):
                    if 'CDOWN' in g[0] or 'CNTDWN' in g[0]:
                        V('leak counter not lowered', 'counter %s rises on allocation and is not lowered on release' % g[0])
        return und
    for a, b in parts:
        sp.run(a, b, cell_)
        if a < b:
            sp.run(a, a, cell_)
