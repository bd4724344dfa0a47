"""Hot reload (include/dl/hotswap.cpp): rules over the path traces of the exported entry points, the runtime's own
helpers inlined.  Shapes the rules do not recognise are counted as undecided, never reported."""
import re
from . import env, ir, trace, parrules
from .trace import poly, sub, show, M64

SRC = env.VERIF + '/harness/rt_hotswap.cpp'
BENIGN = r'^(printf|puts|putchar|snprintf|strlen|rand|getenv|__errno_location|dlerror|dlopen|dlsym|dladdr|dlinfo|rename|readlink|signal|strerror|fprintf|perror)$|__cxa_(guard|atexit)|fu::view(_mut)?<.*::(begin|end)\(\)'


class Tracer(trace.Tracer):
    """the verbosity switch is read as one unknown constant; statics are initialised"""
    init = True
    quiet = ()

    def inst(self, t, i):
        if i.op == 'load' and isinstance(i.ops[0], dict):
            g = i.ops[0].get('g', '')
            if g.startswith('_ZGV') and self.init:
                t.env[i.id] = 1
                return
            if g in self.quiet:
                t.env[i.id] = 0
                return
        if i.op == 'load' and ('fresh', self.v(t, i.ops[0])) in t.n:
            t.env[i.id] = 0
            return
        return super().inst(t, i)

    def call(self, t, i):
        n = i.cdem or i.callee or ''
        super().call(t, i)
        if re.search(r'^fu::vec<.*>::vec\(\)$', n) and i.ops:
            a = self.v(t, i.ops[0])
            for k, w in ((0, 64), (8, 32), (12, 32)):
                t.n[('fresh', trace.add(a, k))] = 1
        elif not re.search(BENIGN, n) and not n.startswith('llvm.'):
            for o in i.ops:
                a = self.v(t, o)
                for k in [k for k in t.n if isinstance(k, tuple) and k[0] == 'fresh' and isinstance(sub(k[1], a), int)]:
                    del t.n[k]
        if re.search(r'^(dladdr|dlinfo|readlink|snprintf)$', n):       # they fill a local buffer
            for o in i.ops:
                a = self.v(t, o)
                b = self.base(a) if isinstance(a, tuple) else None
                for k in list(t.mem):
                    if b is not None and self.base(k) == b:
                        del t.mem[k]


def load():
    return parrules.functions(SRC, (), root=r'hotswap_init|hotswap_here|hotswap_callback|attach\w*|\w*(SIG|sig)\w*', keep='NOTHING', extra=['-keepfile', '/fu/'])


def quiet(fs):
    """globals no analysed function writes: switches set once at start"""
    written, read = set(), set()
    for f in fs:
        for i in f.insts():
            for k, o in enumerate(i.ops if i.op != 'phi' else ()):
                if isinstance(o, dict) and 'g' in o:
                    if i.op == 'load' and i.ty in ('i1', 'i8'):
                        read.add(o['g'])
                    elif i.op == 'store' and k == 1 and '_GLOBAL__sub_I' not in f.name and not f.name.startswith('__cxx_global_var_init'):
                        written.add(o['g'])
    return {g for g in read - written if not g.startswith('_ZGV')}


def origin(t, x):
    return t.n.get(('at', x[1])) if isinstance(x, tuple) and x[0] == 'ld' else None


def truth(t, x, n=0):
    """what the path knows about x == n: True, False, None"""
    if n == 0 and isinstance(x, tuple):
        for y in (('tr', 1, x), ('tr', 8, x)):
            if y in t.facts:
                return not t.facts[y]
    return trace.Tracer.known(None, t, trace.Tracer.cmp(None, 'eq', x, n))


def known(t, x):
    """not null, or read again from a place that was found not to hold null"""
    if truth(t, x) is False:
        return True
    o = origin(t, x)
    return o is not None and any(e.k == 'load' and e.a == o and truth(t, e.v) is False for e in t.ev)


def handle_term(v):
    """calls a value may come from, through selects"""
    if isinstance(v, tuple) and v[0] == 'sel':
        return handle_term(v[2]) | handle_term(v[3])
    return {v}


def excluded(t, r, val):
    """some fact of the path fails when r == val"""
    for c, want in t.facts.items():
        k = trace.subst(c, r, val)
        if isinstance(k, int) and bool(k) != want:
            return True
        if not (isinstance(c, tuple) and c[0] == 'cmp'):
            continue
        _, p, a, b = c
        if a != r and b != r:
            continue
        if isinstance(a if b == r else b, int):
            k = trace.Tracer.cmp(None, p, val if a == r else a, val if b == r else b)
            if isinstance(k, int) and bool(k) != want:
                return True
        elif val == M64 or val == -1:              # (size_t) -1 is below nothing and at least anything
            if (p == 'ult' and a == r and want) or (p == 'ule' and b == r and not want):
                return True
            if (p == 'ugt' and b == r and want) or (p == 'uge' and a == r and not want):
                return True
            if p == 'ule' and a == r and want or p == 'ult' and b == r and not want:
                return True
    return False


def wraps(limit, L):
    """a length of the name for which the unsigned limit, as a number, is negative; None when there is none or it is not known"""
    from . import text
    for x in sorted({y for k in range(0, 41) for y in ((1 << k) - 1, 1 << k, (1 << k) + 1)} | {y for c in consts(limit) for d in (1, 2, 3, 4) for y in (c // d - 2, c // d - 1, c // d, c // d + 1, c * d)}):
        if x < 0:
            continue
        try:
            if text.value(limit, {L: x}) < 0:
                return x
        except KeyError:
            return None
    return None


def consts(t):
    if isinstance(t, int):
        return {abs(t)}
    r = set()
    for x in t[1:]:
        if isinstance(x, int):
            r.add(abs(x))
        elif isinstance(x, tuple):
            r |= consts((0,) + x if x and not isinstance(x[0], str) else x)
    return r


class Rules:
    def __init__(self, ctx, fs):
        self.ctx, self.fs = ctx, fs

    def bad(self, f, what, i, text):
        self.ctx.violation('include/dl/hotswap.cpp:%s:%s' % (f.base.replace('.inl', ''), what), '%s: %s' % (i.where() if i is not None else f.where(), text))

    def field(self, i):
        """(struct, offset) a store writes, from the address computation"""
        p, off = i.ops[1], 0
        g = i.fn.inst.get(p) if isinstance(p, int) else None
        if g is not None and g.op == 'getelementptr' and 'off' in g.d:
            return (g.d.get('src'), g.d['off'])
        return None

    def path(self, f, t):
        ctx, ev = self.ctx, t.ev
        opens = [k for k, e in enumerate(ev) if e.k == 'call' and e.a == 'dlopen']
        syms = [k for k, e in enumerate(ev) if e.k == 'call' and e.a == 'dlsym']
        for k, e in enumerate(ev):
            if e.k == 'call' and e.a == 'dlclose':
                self.bad(f, 'dlclose', e.i, 'a library is unloaded although functions of it may be running or referenced')
            if e.k in ('store', 'astore'):
                at = e.a
                srcs = handle_term(e.v)
                if any(s in [ev[j].x for j in opens] for s in srcs):
                    # a library handle is put in place
                    if self.trans(at):
                        continue
                    ctx.count('handle_stores')
                    if truth(t, e.v) is not False:
                        self.bad(f, 'handle', e.i, 'the result of dlopen replaces the handle of a loaded library on a path where it may be null: '
                                 'after a failed reload the working code is gone')
                elif isinstance(at, tuple) and at[0] == 'ld' and self.slotlike(t, at):
                    ctx.count('slot_stores')
                    good = all(s in [ev[j].x for j in syms] for s in srcs)
                    if not good and e.v == 0 or good and truth(t, e.v) is not False:
                        self.bad(f, 'slot', e.i, 'a function slot receives %s: calling it crashes' %
                                 ('null' if e.v == 0 else 'what dlsym returned on a path where that may be null'))
                    elif good:
                        s = next(ev[j] for j in syms if ev[j].x in srcs)
                        so, oo = origin(t, s.v[1]), origin(t, at)
                        if so is not None and oo is not None:
                            d = sub(oo, so)
                            if not isinstance(d, int):
                                self.bad(f, 'slotmix', e.i, 'the function found for the symbol of one item is stored in the slot of another')
                        else:
                            ctx.count('undecided')
        # handle used for the lookups
        for k in syms:
            h = ev[k].v[0]
            ctx.count('lookups')
            for x in handle_term(h):
                o = origin(t, x)
                ds = [sub(o, a) for a in self.handles] if o is not None else []
                if ds and 0 not in ds and any(isinstance(d, int) for d in ds):
                    self.bad(f, 'wronghandle', ev[k].i, 'the symbol is looked up in another handle than the one dlopen just returned')
            if h == 0:
                self.bad(f, 'sym0', ev[k].i, 'symbols are looked up in the global scope instead of the library')
            if h != 0 and truth(t, h) is True:
                self.bad(f, 'sym0', ev[k].i, 'symbols are looked up in the global scope instead of the library')
            last = next((ev[j] for j in reversed(opens) if j < k), None)
            if last is not None and truth(t, last.x) is True and not any(x == last.x for x in handle_term(h)):
                self.bad(f, 'notloaded', ev[k].i, 'after loading the library failed, symbols are looked up in what was loaded before, which may be nothing')
        self.renames(f, t)
        self.buffers(f, t)

    @staticmethod
    def trans_local(a):
        return trace.Tracer.base(a) is not None if isinstance(a, tuple) else False

    def trans_base(self, a):
        return not self.trans_local(a)

    @staticmethod
    def trans(at):
        return isinstance(at, tuple) and at[0] == 'alloca'

    @staticmethod
    def slotlike(t, at):
        """a pointer read from memory that is not a local: the slot field of an item"""
        o = t.n.get(('at', at[1]))
        return o is not None and trace.Tracer.base(o) is None

    def renames(self, f, t):
        ev = t.ev
        for k, e in enumerate(ev):
            if e.k != 'call' or e.a != 'rename':
                continue
            src, dst = e.v[:2]
            if trace.Tracer.base(src) is not None and not isinstance(src, int):
                continue                                    # that is the way back
            self.ctx.count('renames')
            if not known(t, src):
                self.bad(f, 'unknown', e.i, 'a library whose path may not be known (null) is renamed')
            b = trace.Tracer.base(dst)
            if b is not None and b[0] == 'alloca' and not any(
                    c.k == 'call' and re.search(r'^(snprintf|sprintf|strcpy|stpcpy|strcat|strncpy|memccpy|mkstemp|mktemp|tmpnam)', c.a) and c.v and trace.Tracer.base(c.v[0]) == b or
                    c.k in ('memcpy', 'memmove', 'memset', 'store') and isinstance(c.a, tuple) and trace.Tracer.base(c.a) == b or
                    c.k == 'call' and c.a != 'rename' and not re.match(BENIGN, c.a) and any(isinstance(v, tuple) and trace.Tracer.base(v) == b for v in c.v)
                    for c in ev[:k]):
                self.bad(f, 'noname', e.i, 'the library file is renamed to a name that was never made up')
            if truth(t, e.x) is False:
                continue                                    # it failed: nothing moved
            back = None
            for b in range(k + 1, len(ev)):
                g = ev[b]
                if g.k == 'call' and g.a == 'rename' and g.v[0] == dst:
                    back = b
                    break
            if back is None:
                self.bad(f, 'renamed', e.i, 'the library file may have been renamed here, and a path (%s) does not rename it back: later reloads and restarts '
                         'do not find it' % ('to the end of the function' if t.end == 'ret' else 'to the next library'))
                continue
            g = ev[back]
            if g.v[1] != src and (origin(t, g.v[1]) is None or origin(t, g.v[1]) != origin(t, src)):
                self.bad(f, 'renamedto', g.i, 'the library file is not renamed back to the name it had')
            for c in ev[k + 1:back]:
                if c.k == 'store' and origin(t, src) is not None and c.a == origin(t, src):
                    self.bad(f, 'renamedto', c.i, 'the original name of the library file is overwritten before it is renamed back')
                if c.k == 'call' and c.a == 'dlopen' and c.v[0] != dst:
                    self.bad(f, 'opened', c.i, 'while the file is renamed, the old name is opened: the loader finds nothing or returns the old library')
            if truth(t, e.x) is True and not any(c.k == 'call' and c.a == 'dlopen' for c in ev[k + 1:back]):
                self.bad(f, 'opened', g.i, 'the file is renamed back before it was opened: the loader returns the library it already has')

    def buffers(self, f, t):
        ev = t.ev
        for e in ev:
            if e.k == 'call' and e.a == 'snprintf' and isinstance(e.v[0], tuple) and e.v[0][0] == 'alloca':
                cnt = t.n.get(('count', e.v[0][1]))
                if cnt is None:
                    cnt = self.elems(f, e.v[0][1])
                self.ctx.count('buffers')
                if cnt is None:
                    self.ctx.count('undecided')
                    continue
                d = sub(cnt, e.v[1])
                if isinstance(d, int) and d < 0:
                    self.bad(f, 'overflow', e.i, 'snprintf is told of %d bytes more than the buffer has' % -d)
                # room for the name, the number and the terminator
                lens = [x for x in ev if x.k == 'call' and x.a == 'strlen']
                names = [a for a in e.v[3:] if isinstance(a, tuple)]
                for L in lens:
                    if any(L.v[0] == a or origin(t, L.v[0]) is not None and origin(t, L.v[0]) == origin(t, a) for a in names):
                        r = sub(e.v[1], L.x)
                        if isinstance(r, int) and r < 12:
                            if r < 11:
                                self.bad(f, 'truncate', e.i, 'the fresh name is cut off: %d bytes for a number of up to 10 digits and the terminator; '
                                         'names come to coincide with the original or with each other' % r)
                        break
            if e.k == 'call' and e.a == 'readlink':
                buf, size, r = e.v[1], e.v[2], e.x
                k = ev.index(e)
                use = [c for c in ev[k + 1:] if c.k in ('memcpy', 'memmove') and trace.Tracer.base(c.a) == trace.Tracer.base(buf)]
                if not use:
                    o = [c for c in ev[k + 1:] if c.k == 'call' and c.a == 'dlopen' and trace.Tracer.base(c.v[0]) == trace.Tracer.base(buf)]
                    if o and not any(c.k in ('store', 'call') and isinstance(c.a, (tuple, str)) and (trace.Tracer.base(c.a) == trace.Tracer.base(buf) if c.k == 'store' else
                                     c.a != 'dlopen' and any(isinstance(v, tuple) and trace.Tracer.base(v) == trace.Tracer.base(buf) for v in c.v)) for c in ev[k + 1:ev.index(o[0])]):
                        self.bad(f, 'beside', o[0].i, 'the program itself is loaded instead of the library beside it')
                    continue
                self.ctx.count('buffers')
                cnt = t.n.get(('count', trace.Tracer.base(buf)[1]))
                if cnt is not None:
                    d = sub(cnt, size)
                    if isinstance(d, int) and d < 0:
                        self.bad(f, 'overflow', e.i, 'readlink is told of %d bytes more than the buffer has' % -d)
                if not excluded(t, r, M64) and not excluded(t, r, -1):
                    self.bad(f, 'readlink', use[0].i, 'reached although readlink may have failed: its -1 is taken for a length')
                    continue
                n = use[0].x
                self.beside(f, t, use[0], buf)
                ln = [c for c in ev if c.k == 'call' and c.a == 'strlen' and (c.v[0] == use[0].v or origin(t, c.v[0]) is not None and origin(t, c.v[0]) == origin(t, use[0].v))]
                if ln:
                    d = sub(n, ln[-1].x)
                    if isinstance(d, int) and d != 1:
                        self.bad(f, 'terminator', use[0].i, 'the name is copied %s' % ('without its terminator' if d < 1 else 'with %d bytes that follow it' % (d - 1)))
                        continue
                bound = None
                for c, want in t.facts.items():
                    if isinstance(c, tuple) and c[0] == 'cmp':
                        _, p, a, b = c
                        a, b = ([x] + [y for y in handle_term(x) if y == r] for x in (a, b))
                        a, b = a[-1], b[-1]
                        if r not in (a, b):
                            continue
                        if a == r and ((p == 'ult' and want) or (p == 'ule' and want)):
                            bound = (b, 0 if p == 'ult' else 1)
                        if b == r and ((p == 'ule' and not want) or (p == 'ult' and not want)):
                            bound = (a, 0 if p == 'ule' else 1)
                if bound is None:
                    self.ctx.count('undecided')
                    continue
                w = wraps(bound[0], ln[-1].x) if ln else None
                if w is not None:
                    self.bad(f, 'overflow', use[0].i, 'for a name of %d bytes the limit of the guard wraps below zero: the name is appended past the end of the buffer' % w)
                    continue
                if cnt is None:
                    cnt = self.elems(f, trace.Tracer.base(buf)[1])
                if cnt is None:
                    self.ctx.count('undecided')
                    continue
                size = cnt
                # i < r < bound, copy at i + 1 + n bytes: i + 1 <= r <= bound - 1 (+1)
                room = sub(sub(size, n), bound[0])
                if isinstance(room, int):
                    if room + 1 - bound[1] < 0:
                        self.bad(f, 'overflow', use[0].i, 'the name is appended %d bytes past the end of the buffer for the longest link' % -(room + 1 - bound[1]))
                else:
                    neg = all(c < 0 for m, c in poly(room).items() if m != ()) and room != 0
                    if sub(size, bound[0]) == 0 or isinstance(sub(size, bound[0]), int) or neg:
                        self.bad(f, 'overflow', use[0].i, 'the guard leaves no room for the name that is appended to the path of the executable')
                    else:
                        self.ctx.count('undecided')

    def beside(self, f, t, cp, buf):
        """the name replaces what follows a '/' of the link"""
        for c, want in t.facts.items():
            if c[0] == 'cmp' and c[1] == 'eq' and c[3] == 47:
                x = c[2]
                while isinstance(x, tuple) and x[0] in ('sx', 'zx', 'tr'):
                    x = x[2]
                a = origin(t, x)
                if a is None or trace.Tracer.base(a) != trace.Tracer.base(buf):
                    continue
                d = sub(cp.a, a)
                if not want and d == 1:
                    self.bad(f, 'beside', cp.i, 'the name is put behind a character of the path that is not a slash')
                elif isinstance(d, int) and d != 1:
                    self.bad(f, 'beside', cp.i, 'the name is put %d bytes behind the slash instead of right behind it' % d)
                elif not isinstance(d, int):
                    e = [m for m in poly(d) if m != ()]
                    self.bad(f, 'beside', cp.i, 'the name is not put behind the slash that was found') if len(e) <= 1 else self.ctx.count('undecided')
                return
        self.ctx.count('undecided')

    @staticmethod
    def elems(f, aid):
        a = f.inst.get(aid)
        m = re.match(r'\[(\d+) x i8\]', (a.d.get('at') or '') if a is not None else '')
        return int(m.group(1)) if m else None

    def loops(self, f):
        """a pass over the libraries or items is not abandoned half way, and steps by one"""
        T = Tracer(f)
        for h, body in T.body.items():
            calls = [i for b in body for i in f.blocks[b] if i.op in ('call', 'invoke') and i.callee in ('dlsym', 'dlopen')]
            if not calls:
                continue
            self.ctx.count('passes')
            for b in body:
                for e in f.succ[b]:
                    if e.kind == 'unw' or e.dst in body or b == h:
                        continue
                    if f.blocks[e.dst][-1].op == 'unreachable':
                        continue
                    self.bad(f, 'abandon', f.blocks[b][-1], 'a pass over the %s ends early: those behind keep the old code' %
                             ('registered functions' if calls[0].callee == 'dlsym' else 'libraries'))
            for i in f.blocks[h]:
                if i.op != 'phi':
                    break
                if i.ty != 'ptr':
                    continue
                for o, p in i.ops:
                    if p in body:
                        g = f.inst.get(o) if isinstance(o, int) else None
                        if g is not None and g.op == 'getelementptr' and g.ops[0] == i.id and ir.const(g.ops[1]) not in (None, 1) and len(g.ops) == 2:
                            self.bad(f, 'step', g, 'a pass skips entries')
                    else:
                        c = f.inst.get(o) if isinstance(o, int) else None
                        if c is not None and c.op == 'getelementptr':
                            b0 = f.inst.get(c.ops[0]) if isinstance(c.ops[0], int) else None
                            if b0 is not None and b0.op in ('call', 'invoke', 'load') and c.d.get('off', 0) > 0:
                                self.bad(f, 'first', c, 'a pass does not start at the first entry')


def run(ctx):
    ctx.rule('a function slot receives only its fallback or a non-null result of dlsym for the symbol of the same item')
    ctx.rule('a library handle is replaced only by a non-null result of dlopen, and libraries are not unloaded')
    ctx.rule('on every path a renamed library file is opened under its temporary name and renamed back to the name it had')
    ctx.rule('names and links fit their buffers, a failed readlink is not used as a length')
    ctx.rule('every library is tried and every registered function looked up in each library that was reloaded')
    ctx.rule('registration: the slot holds the fallback first, and the item is listed unless a reload is in progress')
    ctx.rule('manual mode: the signal only leaves a request; the request is cleared before the reload it causes')
    fs = [f for f in load() if f.blocks]
    R = Rules(ctx, fs)
    q = quiet(fs)
    by = {re.sub(r'\.inl$', '', f.name): f for f in fs}
    handlers = {o['f'] for f in fs for i in f.calls() if i.callee in ('signal', 'sigaction') for o in i.ops if isinstance(o, dict) and 'f' in o}
    handlers |= {o['g'] for f in fs for i in f.calls() if i.callee in ('signal', 'sigaction') for o in i.ops if isinstance(o, dict) and 'g' in o}
    by = {k if k.startswith('hotswap_') else 'signal': f for k, f in by.items()
          if k in ('hotswap_init', 'hotswap_here') or k in handlers}
    runs = {}
    for role, f in sorted(by.items()):
        Tracer.quiet = q
        T = Tracer(f, None, BENIGN, limit=8000)
        try:
            runs[role] = T.run()
        except OverflowError:
            ctx.count('undecided')
            continue
        ctx.fn(f.base)
        ctx.count('paths', len(runs[role]))
        R.handles = {e.a for t in runs[role] for e in t.ev if e.k == 'store' and not R.trans(e.a) and
                     handle_term(e.v) & {c.x for c in t.ev if c.k == 'call' and c.a == 'dlopen'}}
        for t in runs[role]:
            R.path(f, t)
        R.loops(f)
    reload_(ctx, R, by, runs)
    flags = init(ctx, R, by, runs)
    startup(ctx, R, by)
    mode, req = manual(ctx, R, by, runs) or ((), ())
    state(ctx, R, fs, flags or (), req, mode)
    callbacks(ctx, R, fs, runs)
    if 'signal' not in by:
        R.ctx.violation('include/dl/hotswap.cpp:nohandler', 'no handler is installed for the signal')
    ctx.need('paths', 20)


def reload_(ctx, R, by, runs):
    for role in ('signal', 'hotswap_here'):
        if role not in runs:
            continue
        f, ts = by[role], runs[role]
        T = Tracer(f)
        heads = [h for h, body in T.body.items() if any(i.callee == 'dlsym' for b in body for i in f.blocks[b]) and
                 not any(i.callee == 'dlopen' for b in body for i in f.blocks[b])]
        outer = {h for h, body in T.body.items() if any(i.callee == 'dlopen' for b in body for i in f.blocks[b])}
        if not any(i.callee == 'dlopen' for i in f.calls()):
            R.bad(f, 'noreload', None, 'nothing is loaded here any more')
            continue
        if not any(i.callee == 'dlsym' for i in f.calls()):
            R.bad(f, 'noitems', next(i for i in f.calls() if i.callee == 'dlopen'), 'a library is loaded, and the registered functions are not looked up in it')
            continue
        fresh(R, f, ts)
        for t in ts:
            if t.end == 'back' and t.n.get('to') in outer and not any(e.k == 'call' and e.a == 'dlopen' for e in t.ev):
                R.bad(f, 'skipped', f.blocks[t.n['to']][-1], 'a path goes on to the next library without trying to load this one')
            for k, e in enumerate(t.ev):
                if e.k == 'call' and e.a == 'dlopen' and truth(t, e.x) is False and t.end in ('ret', 'back') and t.n.get('to') not in heads:
                    later = any(c.k == 'call' and c.a == 'dlopen' for c in t.ev[k + 1:])
                    if later:
                        continue
                    ctx.count('reloads')
                    if heads and not any(h in t.blk for h in heads):
                        R.bad(f, 'noitems', e.i, 'a library was reloaded here, and a path goes on without looking up the registered functions in it')
                    stored = any(c.k == 'store' and e.x in handle_term(c.v) and not R.trans(c.a) for c in t.ev[k + 1:])
                    if not stored:
                        R.bad(f, 'nohandle', e.i, 'the handle of the reloaded library is dropped: its functions are looked up in the old one')


def fresh(R, f, ts):
    """a library the process has loaded is opened under a name the loader does not know: the path to rename must come to be known"""
    ren = [(t, e) for t in ts for e in t.ev if e.k == 'call' and e.a == 'rename' and origin(t, e.v[0]) is not None and R.trans_base(e.v[0])]
    if not ren:
        return R.ctx.count('undecided')
    field = lambda a: [(poly(a).get((), 0), len(poly(a)))] if a is not None and isinstance(a, tuple) and a[0] != 'alloca' else []
    path = {k for t, e in ren for k in field(origin(t, e.v[0]))}
    if not path:
        return R.ctx.count('undecided')
    sets = [(t, e) for t in ts for e in t.ev if e.k == 'store' and e.v != 0 and set(field(e.a)) & path and isinstance(poly(e.a), dict)]
    if not sets:
        return R.bad(f, 'stale', ren[0][1].i, 'the path of a loaded library is never found out, so it is never opened under a fresh name: the loader returns the old code')
    ok = False
    for t, e in sets:
        old = [x for x in t.ev[:t.ev.index(e)] if x.k == 'load' and x.a == e.a]
        ok = ok or not old or any(truth(t, x.v) is not False for x in old)
    if not ok:
        R.bad(f, 'stale', sets[0][1].i, 'the path of a loaded library is looked up only when it is known already: it is never opened under a fresh name')
    # what the lookup starts from must be remembered
    for t, e in sets:
        q = [x for x in t.ev[:t.ev.index(e)] if x.k == 'call' and x.a in ('dladdr', 'dlinfo')]
        if not q:
            continue
        if truth(t, q[-1].x) is (q[-1].a == 'dladdr'):
            R.bad(f, 'stale', q[-1].i, 'the answer of %s is used when it failed' % q[-1].a)
        o = origin(t, q[-1].v[0])
        if o is None:
            continue
        k = set(field(o))
        if not any(x.k == 'store' and x.v != 0 and set(field(x.a)) & k and truth(u, x.v) is not True for u in ts for x in u.ev):
            R.bad(f, 'stale', q[-1].i, 'the symbol the path of the library is looked up with is never remembered: the library is never opened under a fresh name')
        break
    for t in ts:
        for k, e in enumerate(t.ev):
            if e.k == 'call' and e.a == 'dlopen' and not R.trans_local(e.v[0]):
                seen = [x for x in t.ev[:k] if x.k == 'load' and set(field(x.a)) & path]
                if seen and any(truth(t, x.v) is False for x in seen) and not any(x.k == 'call' and x.a in ('rename', 'link', 'symlink', 'copy_file', 'dlmopen') for x in t.ev[:k]):
                    R.bad(f, 'stale', e.i, 'a library whose path is known is opened again under the name it is loaded by: the loader returns the old code')


def startup(ctx, R, by):
    """the first registration: a library is listed and the signal handler installed, unless the program has one already"""
    f = by.get('hotswap_init')
    if f is None:
        return
    Tracer.init = False
    try:
        ts = Tracer(f, None, BENIGN, limit=8000).run()
    except OverflowError:
        return ctx.count('undecided')
    finally:
        Tracer.init = True
    for t in ts:
        g = [e for e in t.ev if e.k == 'call' and e.a == '__cxa_guard_acquire']
        if t.end != 'ret' or len(g) != 1 or truth(t, g[0].x) is not False:
            continue
        sig = [e for e in t.ev if e.k == 'call' and e.a == 'signal']
        if any(e.k == 'call' and e.a == 'sigaction' for e in t.ev):
            ctx.count('undecided')
            continue
        ctx.count('startups')
        inst = [sub(e.v[0], 0) for e in t.ev if e.k == 'call' and re.search(r'::vec\(\)$', e.a)]
        done = next((k for k, e in enumerate(t.ev) if e.k == 'call' and e.a == '__cxa_guard_release'), len(t.ev))
        push = [e for e in t.ev[:done] if e.k == 'call' and re.search(r'fu::vec<.*>::push\(|operator\+=|::insert\(', e.a)]
        back = [e for e in sig[1:] if e.v[1] == sig[0].x]
        if sig:
            prev = sig[0].x
            free = truth(t, prev) is True or truth(t, prev, 1) is True
            taken = truth(t, prev) is False and truth(t, prev, 1) is False
            if taken and not back:
                R.bad(f, 'stolen', sig[0].i, 'the handler the program had installed is replaced and not put back: the program no longer hears the signal')
            if back and not taken:
                R.bad(f, 'nohandler', back[0].i, 'the handler is taken down again although the program had none: no reload is ever requested')
            if not free and not taken and not back:
                ctx.count('undecided')
        if push and not sig:
            R.bad(f, 'nohandler', push[0].i, 'the first library is listed without installing a handler: no reload is ever requested')
        if not push and not back:
            R.bad(f, 'nolib', (sig or g)[0].i, 'registration starts up without listing any library: nothing is ever reloaded')
        for e in push:
            a = e.v[1] if len(e.v) > 1 else None
            vals = {sub(c.a, a): c.v for c in t.ev[:t.ev.index(e)] if c.k == 'store' and isinstance(a, tuple) and trace.Tracer.base(c.a) == trace.Tracer.base(a)}
            if vals and not any(isinstance(v, tuple) for v in vals.values()):
                R.bad(f, 'nolib', e.i, 'the library is listed without its name')


def state(ctx, R, fs, flags, req, mode):
    """at start no reload is in progress and nothing is requested"""
    val = {}
    for f in fs:
        for i in f.insts():
            for o in i.ops if i.op != 'phi' else ():
                if isinstance(o, dict) and 'g' in o and 'gi' in o:
                    val[('g', o['g'])] = o['gi']
    for g, what in [(g, 'a reload is in progress: functions are not listed') for g in flags] + [(g, 'a reload is requested') for g in req] + \
                   [(g, 'manual mode is on: programs that never call here() do not reload') for g in mode]:
        if val.get(g):
            R.ctx.violation('include/dl/hotswap.cpp:initial:%s' % what.split(':')[0], 'at start %s' % what)


def callbacks(ctx, R, fs, runs):
    """the registered callback hears of every signal and receives what was registered with it"""
    add = next((f for f in fs if f.base.startswith('hotswap_callback_add') or 'hotswap_callback_add' in (f.dem or f.name)), None)
    if add is None or 'signal' not in runs or len(add.argids) != 2:
        return ctx.count('undecided')
    T = Tracer(add, None, BENIGN)
    a = [('arg', T.argn[x]) for x in add.argids]
    loc = [None, None]
    for t in T.run():
        if t.end != 'ret':
            continue
        for k in (0, 1):
            s = [e for e in t.ev if e.k in ('store', 'astore') and e.v == a[k] and isinstance(e.a, tuple) and e.a[0] == 'g']
            if not s:
                return R.bad(add, 'callback', None, 'the %s is not remembered' % ('callback', 'data of the callback')[k])
            loc[k] = s[-1].a
    rem = next((f for f in fs if 'hotswap_callback_remove' in (f.dem or f.name)), None)
    if rem is not None:
        for t in Tracer(rem, None, BENIGN).run():
            if t.end == 'ret' and not any(e.k in ('store', 'astore') and e.a == loc[0] and e.v == 0 for e in t.ev) and not any(e.k in ('load', 'aload', 'cas', 'rmw') for e in t.ev):
                R.bad(rem, 'callback', None, 'a callback that was removed is still called')
    for t in runs['signal']:
        if t.end != 'ret':
            continue
        ctx.count('callbacks')
        got = [e for e in t.ev if e.k in ('load', 'aload') and e.a == loc[0]]
        call = [e for e in t.ev if e.k == 'icall']
        if any(truth(t, e.v) is not True for e in got) and not call:
            R.bad(add, 'callback', got[-1].i, 'a signal arrives and the registered callback is not called')
        elif not got:
            R.bad(add, 'callback', None, 'a path through the signal handler does not look for the callback')
        if got and all(truth(t, e.v) is True for e in got) and call:
            R.bad(add, 'callback', call[0].i, 'the callback is called when there is none')


def init(ctx, R, by, runs):
    if 'hotswap_init' not in runs:
        return ctx.count('undecided')
    f = by['hotswap_init']
    ids = f.argids
    if len(ids) != 3:
        return ctx.count('undecided')
    T = Tracer(f)
    sym, slot, fb = (('arg', T.argn[a]) for a in ids)
    # the flag that tells a reload is in progress: stored 1 before every dlopen
    flags = None
    for role in ('signal', 'hotswap_here'):
        for t in runs.get(role, ()):
            for k, e in enumerate(t.ev):
                if e.k == 'call' and e.a == 'dlopen':
                    s = {c.a for c in t.ev[:k] if c.k in ('store', 'astore') and c.v == 1 and isinstance(c.a, tuple) and c.a[0] == 'g'}
                    flags = s if flags is None else flags & s
    tested = {e.a for t in runs['hotswap_init'] for e in t.ev if e.k in ('load', 'aload') and isinstance(e.a, tuple) and e.a[0] == 'g'}
    flag = (flags or set()) & tested
    for t in runs['hotswap_init']:
        if t.end != 'ret':
            continue
        ctx.count('registrations')
        st = [e for e in t.ev if e.k in ('store', 'astore') and e.a == slot]
        if not st:
            R.bad(f, 'fallback', None, 'a path leaves the slot without its fallback: it is called before any library is loaded')
        for e in st:
            if e.v == fb:
                continue
            if e.v == 0 or (e.v[0] == 'call' and truth(t, e.v) is not False):
                R.bad(f, 'slot', e.i, 'the slot receives a value that may be null instead of the fallback')
        if t.val != fb and t.val == 0:
            R.bad(f, 'result', None, 'null is returned instead of the function')
        push = [e for e in t.ev if e.k == 'call' and re.search(r'fu::vec<.*>::push\(|operator\+=|::insert\(', e.a)]
        off = any(e.k in ('load', 'aload') and e.a in flag and (truth(t, e.v) is False) for e in t.ev)
        on = not off
        loaded = any(e.k in ('load', 'aload') and e.a in flag for e in t.ev)
        if not push and not off:
            R.bad(f, 'unlisted', None, 'a function is registered without being listed: no reload will ever replace it')
        if push and flag and not loaded:
            ctx.count('undecided')
        if push and off:
            R.bad(f, 'relisted', push[0].i, 'while a library is being reloaded its own slots are listed: they point into a library version that the next reload abandons')
        for e in push:
            a = e.v[1] if len(e.v) > 1 else None
            if isinstance(a, tuple) and a[0] == 'alloca':
                vals = {}
                for c in t.ev[:t.ev.index(e)]:
                    if c.k == 'store' and trace.Tracer.base(c.a) == a and isinstance(sub(c.a, a), int):
                        vals[sub(c.a, a)] = c.v
                if vals and slot not in vals.values():
                    R.bad(f, 'item', e.i, 'the listed item does not refer to the slot that was registered')
                if vals and sym not in vals.values():
                    R.bad(f, 'item', e.i, 'the listed item does not carry the symbol that was registered')
    if flags is not None and not flag:
        R.bad(f, 'flag', None, 'nothing tells registration that a reload is in progress when a library is opened: the reloaded library lists its own slots'
              ) if not tested else ctx.count('undecided')
    return flag


def outer(f):
    """heads of the loops that load libraries"""
    if not hasattr(f, 'loading'):
        f.loading = [h for h, body in Tracer(f).body.items() if any(i.callee == 'dlopen' for b in body for i in f.blocks[b])]
    return f.loading


def manual(ctx, R, by, runs):
    if 'hotswap_here' not in runs or 'signal' not in runs:
        return ctx.count('undecided')
    fh, hs = by['hotswap_here'], by['signal']
    here = runs['hotswap_here']
    # the mode: globals that here() sets to 1 on every path
    mode = None
    for t in here:
        s = {e.a for e in t.ev if e.k in ('store', 'astore') and e.v == 1 and isinstance(e.a, tuple) and e.a[0] == 'g'}
        mode = s if mode is None else mode & s
    sig = runs['signal']
    mode = {m for m in mode or () if any(e.k in ('load', 'aload') and e.a == m for t in sig for e in t.ev)}
    mode = {m for m in mode if not any(e.k in ('store', 'astore') and e.a == m for t in sig for e in t.ev)}
    if not mode:
        R.bad(fh, 'mode', None, 'calling here() does not switch to manual mode on every path: the signal keeps reloading in the middle of running code')
        return
    req = set()
    for t in sig:
        if any(e.k in ('load', 'aload') and e.a in mode and truth(t, e.v) is False for e in t.ev):
            ctx.count('manual_paths')
            o = next((e for e in t.ev if e.k == 'call' and e.a in ('dlopen', 'dlsym', 'rename')), None)
            if o:
                R.bad(hs, 'signal', o.i, 'in manual mode the signal handler itself reloads')
            s = {e.a for e in t.ev if e.k in ('store', 'astore') and e.v == 1 and isinstance(e.a, tuple) and e.a[0] == 'g'}
            if not s:
                R.bad(hs, 'request', None, 'in manual mode a signal leaves no request: the reload never happens')
            req |= s
        elif t.end == 'ret' and outer(hs) and any(e.k in ('load', 'aload') and e.a in mode and truth(t, e.v) is True for e in t.ev):
            if not any(h in t.blk for h in outer(hs)) and not any(e.k == 'call' and e.a == 'dlopen' for e in t.ev):
                R.bad(hs, 'unserved', None, 'outside manual mode a path through the signal handler does not reload')
    for t in here:
        asked = [(k, e) for k, e in enumerate(t.ev) if e.k in ('load', 'aload') and e.a in req]
        pend = [k for k, e in asked if truth(t, e.v) is False]
        swap = [k for k, e in enumerate(t.ev) if e.k in ('rmw', 'cas') and e.a in req]
        if pend:
            ctx.count('requests_served')
            op = next((k for k, e in enumerate(t.ev) if e.k == 'call' and e.a in ('dlopen', 'rename')), None)
            clr = next((k for k, e in enumerate(t.ev) if e.k in ('store', 'astore') and e.a in req and e.v == 0), None)
            if op is not None and (clr is None or clr > op) and not swap:
                R.bad(fh, 'lost', t.ev[op].i, 'the reload starts before the request is cleared: a signal that arrives during the reload is lost')
            if op is None and outer(fh) and not any(h in t.blk for h in outer(fh)):
                R.bad(fh, 'unserved', None, 'a path on which a request is pending does not lead to a reload')
            if op is None and t.end == 'ret' and clr is None and not swap and not any(h in t.blk for h in Tracer(fh).heads):
                R.bad(fh, 'unserved', None, 'a pending request is left standing although here() passes over it')
        elif not asked and not swap and req:
            R.bad(fh, 'unasked', None, 'a path through here() does not look for a pending request')
    return mode, req
