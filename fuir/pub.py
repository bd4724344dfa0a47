"""Publication of build products.  Abstract interpretation of the compiler driver in which every string
is a list of space-separated words and a word is the set of fresh random names it was made from; the
state records which fresh files have been completely produced on the path.

 - a file is written (write, compiler -o) only under a name made from a fresh random number;
 - rename only moves to a name without random part, and when its source is a fresh file that file was
   produced by a step that succeeded on this path;
 - a name without random part is never unlinked.
"""
import re
from . import env, ir, absint, flow, cxxsig, entropy
from .ir import const
from .errflow import fname
from .absint import Client, Engine, NZ
from .entropy import gname

OUT = '-o'
EMPTY = ('',)
PRIM = {'write': 'write', 'rename': 'rename', 'unlink': 'unlink', 'chmod': 'chmod', 'exec': 'exec', 'spawn': 'exec', 'run': 'exec',
        'writev': 'write', 'append': 'write', 'write_file': 'write'}
RAWSYS = ('open', 'open64', 'creat', 'fopen', 'rename', 'unlink', 'link', 'symlink', 'truncate', 'system', 'popen', 'remove')


# ---- terms
def glue(a, b):
    """word ++ word"""
    if a == '':
        return [b]
    if b == '':
        return [a]
    if a == OUT:
        return [OUT, b] if b != OUT else [OUT]
    if b == OUT:
        return [a, OUT] if a else [OUT]
    return [frozenset(a) | frozenset(b)]


def norm(ws):
    out = []
    for k, w in enumerate(ws):
        if k in (0, len(ws) - 1) or w == OUT or (out and out[-1] == OUT):
            if w == '' and 0 < k < len(ws) - 1 and out[-1] != OUT:
                continue
            out.append(w)
    # pairs (-o, operand) are a set
    res, seen, k = [], set(), 0
    while k < len(out):
        if out[k] == OUT and k + 1 < len(out) and k + 2 < len(out):
            p = out[k + 1]
            if p == '':             # "-o  name": skip the blank
                out[k + 1:k + 2] = []
                continue
            if p not in seen:
                seen.add(p)
                res += [OUT, p]
            k += 2
            continue
        res.append(out[k])
        k += 1
    return tuple(res[:40])


def concat(a, b):
    if a is None and b is None:
        return None
    a = a or (frozenset(),)
    b = b or (frozenset(),)
    t = norm(list(a[:-1]) + glue(a[-1], b[0]) + list(b[1:]))
    return t


def lit(s):
    ws = []
    for w in s.split(' '):
        if w == '':
            ws.append('')
        elif w == '-o' or w == '--output':
            ws.append(OUT)
        elif w.startswith('-o') and not ws:
            ws += [OUT, frozenset()]
        else:
            ws.append(frozenset())
    return norm(ws) if len(ws) > 1 else tuple(ws)


def labels(t):
    out = frozenset()
    for w in t or ():
        if w not in ('', OUT):
            out |= w
    return out


def outputs(t):
    """operands of -o in a command line"""
    t = t or ()
    return [t[k + 1] if k + 1 < len(t) else frozenset() for k in range(len(t)) if t[k] == OUT]


class Pub(Client):
    fork_kinds = ('r',)

    def __init__(self, fn, rnd, rep, ctx, sigs):
        self.fn, self.rnd, self.rep, self.ctx, self.sigs = fn, rnd, rep, ctx, sigs
        self.sites = {}
        self.pure = {}

    def lazy(self):
        return False

    def edge(self, E, st, e):
        return e.kind != 'unw'          # an exception publishes nothing: cleanup only destroys locals

    # ---- terms of operands
    def term(self, E, st, v):
        if isinstance(v, dict):
            if 's' in v:
                return lit(v['s'].rstrip('\0'))
            if 'ops' in v and v['ops']:
                return self.term(E, st, v['ops'][0])
        a = E.av(st, v)
        if a is None:
            return None
        if a[0] == 's':
            return a[1]
        if a[0] == 'p' and a[2] is not None:
            x = st.mem.get((a[1], a[2]))
            if x is not None and x[0] == 's':
                return x[1]
            # an aggregate: any string inside it
            t = None
            for k, x in st.mem.items():
                if k[0] == a[1] and x[0] == 's' and k[1] >= a[2] and labels(x[1]):
                    t = concat(t, (labels(x[1]),))
            return t
        if a[0] == 't':
            x = st.mem.get((('d', a[1]), 0))
            if x is not None and x[0] == 's':
                return x[1]
        return None

    def put(self, E, st, v, t):
        ad = E.addr(st, v)
        if ad[1] is None:
            return
        if t in (None, (frozenset(),), EMPTY):
            st.mem.pop(ad, None)
        else:
            st.mem[ad] = ('s', t)

    def setr(self, st, i, t):
        if t in (None, (frozenset(),), EMPTY):
            st.env.pop(i.id, None)
        else:
            st.env[i.id] = ('s', t)

    def call(self, E, st, i):
        cal = i.callee or ''
        if cal.startswith('llvm.'):
            return None
        base = fname(i)
        b = ir.unhash(base)
        dem = i.cdem or ''
        k0 = 1 if i.sret else 0
        if base in self.rnd:
            t = None
            for v in i.ops[k0:]:
                t = concat(t, self.term(E, st, v)) if t is not None else self.term(E, st, v)
            t = concat(t, (frozenset([i.id]),))
            for x in [x for x in st.ts if x == ('made', i.id)]:
                del st.ts[x]
            # names made by an earlier execution of this call are other files
            self.result(E, st, i, t)
            return [st]
        k = self.prim(i, base, b)
        if k:
            return self.step(E, st, i, k, b)
        if '_fu' in cal and 'operator""' in dem:
            self.setr(st, i, self.term(E, st, i.ops[0]))
            return [st]
        ops = list(i.ops[k0:])
        # string algebra and everything else: the content of every argument may reach the result
        ts = [self.term(E, st, v) for v in ops]
        if re.search(r'::~\w+\(', dem):
            if ops:
                E.clobber(st, E.addr(st, ops[0])) if not isinstance(E.av(st, ops[0]), tuple) or E.av(st, ops[0])[0] != 'p' else \
                    st.mem.pop(E.addr(st, ops[0]), None)
            return [st]
        meth = re.match(r'_ZN(?!K)', cal) and ops and isinstance(ops[0], int) and self.isthis(dem)
        if meth:
            h = dem.split('(')[0]
            rest = None
            for t in ts[1:]:
                rest = t if rest is None else concat(rest, t)
            if re.search(r'\b(\w+)(<.*>)?::\1$', h) or h.endswith('operator='):
                E.clobber1(st, ops[0])
                self.put(E, st, ops[0], rest if len(ts) > 1 else EMPTY)
            elif rest is not None:
                self.put(E, st, ops[0], concat(ts[0], rest))
            if i.ty == 'ptr':
                a = E.av(st, ops[0])
                if a is not None:
                    st.env[i.id] = a
                else:
                    st.env.pop(i.id, None)
            elif i.ty != 'void':
                st.env.pop(i.id, None)
            if i.sret:
                self.put(E, st, i.ops[0], concat(ts[0], rest) if rest is not None else ts[0])
            return [st]
        t = None
        for n, x in enumerate(ts):
            t = x if n == 0 else concat(t, x)
        muts = self.mutables(i, dem, base, k0)
        for n in muts:
            v = i.ops[n]
            if re.search(r'operator\+=', dem):
                new = concat(ts[n - k0], ts[n - k0 + 1] if n - k0 + 1 < len(ts) else None)
            else:
                new = ts[n - k0]
                for m, x in enumerate(ts):
                    if m != n - k0 and labels(x):
                        new = concat(new, (labels(x),))
            if isinstance(v, int) and E.av(st, v) is not None and E.av(st, v)[0] == 'p':
                self.put(E, st, v, new)
        if re.search(r'operator\+=', dem) and muts and i.ty == 'ptr' and isinstance(i.ops[muts[0]], int):
            a = E.av(st, i.ops[muts[0]])
            if a is not None:
                st.env[i.id] = a
                return [st]
        if not re.search(r'operator\+|operator~', dem):
            t = (labels(t),) if labels(t) else None     # some string computed from the arguments: one word
        self.result(E, st, i, t)
        return [st]

    def isthis(self, dem):
        return '::' in dem.split('(')[0]

    def mutables(self, i, dem, base, k0):
        out = []
        sig = self.sigs.get(base)
        types = [t for t, _ in sig['args']] if sig else flow.Flow.demargs(dem)
        if not types:
            return out
        k = k0
        for t in types:
            if k >= len(i.ops):
                break
            if flow.Flow.mutable(t):
                out.append(k)
            k += 1
            if re.match(r'(const )?fu::(view|view_mut|vec_range|vec_range_mut)<.*>$', t) and k < len(i.ops) and \
                    flow.Flow.isptr(self.fn, i.ops[k - 1]) and not flow.Flow.isptr(self.fn, i.ops[k]):
                k += 1
        return out

    def result(self, E, st, i, t):
        if i.sret:
            E.clobber1(st, i.ops[0])
            self.put(E, st, i.ops[0], t)
            st.env.pop(i.id, None)
        elif i.ty != 'void':
            if i.ty == 'i1' or i.ty in ('i32', 'i64', 'double', 'i8'):
                st.env.pop(i.id, None)
            else:
                self.setr(st, i, t)

    def prim(self, i, base, b):
        if i.callee in RAWSYS:
            return {'open': 'write', 'open64': 'write', 'creat': 'write', 'fopen': 'write', 'rename': 'rename', 'unlink': 'unlink',
                    'system': 'exec', 'popen': 'exec', 'truncate': 'write', 'remove': 'unlink'}.get(i.callee)
        if b in PRIM and base != b and (i.callee not in self.prog_local):
            return PRIM[b]
        return None

    prog_local = ()

    def step(self, E, st, i, kind, b):
        """a file system step: succeeded (0) or failed"""
        self.sites[i.id] = i
        k0 = 1 if i.sret else 0
        p = self.term(E, st, i.ops[k0])
        L = labels(p)
        ok, no = [], []
        if kind == 'write':
            if not L:
                self.rep('write', i, 'writes to a name that is not fresh: readers and concurrent builds see a partial file')
            ok = list(L)
            no = list(L)
        elif kind == 'exec':
            outs = outputs(p)
            for o in outs:
                if not o or o == '':
                    self.rep('output', i, 'runs a command whose -o names a file that is not fresh: readers and concurrent builds '
                             'see a partial file')
                else:
                    ok += o
                    no += o
            self.ctx.count('commands_with_output' if outs else 'commands_without_output')
        elif kind == 'chmod':
            if not L:
                self.rep('chmod', i, 'changes the mode of a file that is already published')
            no = list(L)
        elif kind == 'unlink':
            if not L:
                self.rep('unlink', i, 'removes a published file')
            no = list(L)
        elif kind == 'rename':
            D = labels(self.term(E, st, i.ops[k0 + 1]))
            if D:
                self.rep('target', i, 'renames to a temporary name')
            for x in L:
                if ('made', x) not in st.ts:
                    self.rep('early', i, 'publishes a file that no step has produced successfully on this path')
            no = list(L)
            self.ctx.count('renames_of_fresh_files' if L else 'renames_of_published_files')
        out = []
        E.default_call(st, i)
        sarg = self.status_args(i)
        for status in ((0, 1) if sarg and kind == 'exec' else (0,)):
            for sg in ('0', '-+'):
                if status and sg != '0':
                    continue
                s = st.copy()
                if i.ty.startswith('i'):
                    E.tag(s, i.id, ('r', i.id), sg)
                for v in sarg if kind == 'exec' else ():
                    ad = E.addr(s, v)
                    if ad[1] is not None:
                        t = ('r', 'status', i.id)
                        s.sg[t] = frozenset('-+') if status else frozenset('0')
                        s.mem[ad] = ('t', t)
                good = sg == '0' and not status
                for x in (ok if good else no):
                    if good:
                        s.ts[('made', x)] = 1
                    else:
                        s.ts.pop(('made', x), None)
                if kind in ('rename', 'unlink'):
                    for x in no:
                        s.ts.pop(('made', x), None)
                out.append(s)
        return out

    def status_args(self, i):
        sig = self.sigs.get(fname(i))
        if not sig or i.sret:
            return []
        return [v for v, (t, n) in zip(i.ops, sig['args']) if n == 'status' and t.endswith('&') and not t.startswith('const')] \
            if len(sig['args']) == len(i.ops) else []

    def keep_mem(self, m):
        return True


class PubEngine(Engine):
    def reach_uses(self):
        """per block: locals that some instruction reachable from it mentions (through derived pointers too)"""
        if not hasattr(self, '_ru'):
            fn = self.fn
            use = [set() for _ in fn.blocks]
            for i in fn.insts():
                for v in ir.opvals(i):
                    r, _ = ir.ptr_base(fn, v)
                    if isinstance(r, int) and r in fn.inst and fn.inst[r].op == 'alloca':
                        use[i.blk].add(r)
                    elif isinstance(r, int) and r in fn.inst and fn.inst[r].ty == 'ptr':
                        use[i.blk].add(('ptr', r))
            ch = True
            while ch:
                ch = False
                for b in range(len(fn.blocks) - 1, -1, -1):
                    n = len(use[b])
                    for e in fn.succ[b]:
                        if e.kind != 'unw':
                            use[b] |= use[e.dst]
                    ch |= len(use[b]) != n
            self._ru = use
        return self._ru

    def relevant(self):
        """values that may carry the result of a file system step"""
        if not hasattr(self, '_rel'):
            fn, c = self.fn, self.c
            rel, cells, w = set(), set(), []
            for i in fn.calls():
                if c.prim(i, fname(i), ir.unhash(fname(i))):
                    w.append(i.id)
                    for v in c.status_args(i):
                        cells.add(ir.ptr_base(fn, v)[0])
            loads = {}
            for i in fn.insts():
                if i.op == 'load':
                    loads.setdefault(ir.ptr_base(fn, i.ops[0])[0] if isinstance(ir.ptr_base(fn, i.ops[0])[0], int) else None, []).append(i.id)
            for r in cells:
                w += loads.get(r, [])
            while w:
                v = w.pop()
                if v in rel:
                    continue
                rel.add(v)
                for u in fn.users.get(v, ()):
                    if u.op == 'store' and u.ops[0] == v:
                        w += loads.get(ir.ptr_base(fn, u.ops[1])[0], [])
                    elif u.op not in ('call', 'invoke'):
                        w.append(u.id)
            self._rel = rel
        return self._rel

    def enter(self, b, e, st):
        st2 = super().enter(b, e, st)
        use = self.reach_uses()[b]
        held = {a[1][1] for v, a in st2.env.items() if a[0] == 'p' and a[1][0] == 'al'} | \
               {a[1][1] for a in st2.mem.values() if a[0] == 'p' and a[1][0] == 'al'}
        for m in [m for m in st2.mem if m[0][0] == 'al' and m[0][1] not in use and m[0][1] not in held]:
            del st2.mem[m]
        # text without random part and without -o: only its word boundaries are known; forget them between blocks
        for m in [m for m, a in st2.mem.items() if a[0] == 's' and not labels(a[1]) and OUT not in a[1]]:
            del st2.mem[m]
        for v in [v for v, a in st2.env.items() if a[0] == 's' and not labels(a[1]) and OUT not in a[1]]:
            del st2.env[v]
        rel = self.relevant()
        for v in [v for v, a in st2.env.items() if a[0] == 'k' and v not in rel and (self.fn.inst[v].ty != 'i1' if v in self.fn.inst else True)]:
            del st2.env[v]
        for t in [t for t in st2.sg if t[0] == 'arg']:
            del st2.sg[t]
        return st2

    def clobber1(self, st, v):
        ad = self.addr(st, v)
        if ad[1] is not None:
            st.mem.pop(ad, None)

    def step(self, st, i):
        if i.op in ('extractvalue', 'insertvalue'):
            t = None
            for v in i.ops[:1] if i.op == 'extractvalue' else i.ops[:2]:
                a = self.av(st, v) if not isinstance(v, dict) else None
                if a is not None and a[0] == 's' and (t is None or labels(a[1])):
                    t = a[1]
            self.c.setr(st, i, t)
            return [st]
        if i.op == 'load' and i.ty not in ('i1', 'i8', 'i32', 'i64'):
            a = self.av(st, i.ops[0])
            if a is not None and a[0] == 's':
                st.env[i.id] = a
                return [st]
        if i.op == 'store' and isinstance(i.ops[0], dict) and 's' in i.ops[0]:
            r = super().step(st, i)
            for s in r:
                s.mem[self.addr(s, i.ops[1])] = ('s', lit(i.ops[0]['s'].rstrip('\0')))
            return r
        if i.op == 'getelementptr':
            a = self.av(st, i.ops[0])
            if a is not None and a[0] == 's':
                st.env[i.id] = a
                return [st]
        return super().step(st, i)

    def default_call(self, st, i):
        cal = i.callee or ''
        if cal.startswith('llvm.memset'):
            root, off = self.addr(st, i.ops[0])
            if off is not None:
                n = const(i.ops[2])
                for k in [k for k in st.mem if k[0] == root and k[1] is not None and n is not None and off <= k[1] < off + n]:
                    del st.mem[k]
            return
        if cal.startswith('llvm.lifetime') or cal.startswith('llvm.memcpy'):
            return super().default_call(st, i)
        st.env.pop(i.id, None)


def rnd_functions(P, tu):
    """functions of the module that return a string made from a fresh random number"""
    out = set()
    for f in P.fns.values():
        if f.blocks and f.file and f.file.endswith(tu) and f.args and f.d.get('sret', True):
            if any(ir.unhash(fname(i)) == 'next_u64' for i in f.calls()) and any(i.op == 'ret' and not i.ops for i in f.insts()) and \
                    'build' != ir.unhash(f.base):
                out.add(f)
    return out


def rootrx(f):
    return re.sub(r'([^\w ])', r'\\\1', f.dem)


def analyse(ctx, bc, tu, sigs, tag):
    ctx.rule('files are written and compiled only under fresh names; a fresh file is renamed to its final name only '
             'on paths on which it was produced successfully; published names are never unlinked')
    P = ir.load([bc], ['-notypes', '-passes', 'function(sroa,early-cse)'])
    rnd = rnd_functions(P, tu)
    names = {f.base for f in rnd}
    for f in rnd:
        fresh(ctx, f, tag)
    called, byinc = set(), set()
    for f in P.fns.values():
        for i in f.calls():
            if i.callee:
                called.add(i.callee)
                if f.file and '/include/' in f.file:
                    byinc.add(i.callee)
    mine = [f for f in P.fns.values() if f.blocks and f.file and f.file.endswith(tu)]
    roots = [f for f in mine if (f.name in byinc or f.name not in called) and f.base not in names and not f.name.startswith('_GLOBAL')]
    Q = ir.load([bc], ['-inline'] + sum([['-root', rootrx(f)] for f in roots], []) +
                ['-keepfile', '/include/', '-keepbase', '(%s)' % '|'.join(sorted(names) + ['NOTHING']),
                 '-passes', 'function(sroa,early-cse)'])
    local = {f.name for f in mine}
    for f in Q.fns.values():
        if not f.blocks or re.sub(r'\.inl$', '', f.name) not in {r.name for r in roots}:
            continue

        def rep(what, i, text):
            at = i.loc[0][2] if i.loc else ''
            ctx.violation('%s %s %s %s' % (tag, ir.unhash(at.split('(')[0]) if at else ir.unhash(f.base), ir.unhash(fname(i)), what),
                          '%s: %s at %s %s' % (tag, ir.unhash(fname(i)), i.where(), text))
        c = Pub(f, names, rep, ctx, sigs)
        c.prog_local = local
        if not any(c.prim(i, fname(i), ir.unhash(fname(i))) for i in f.calls()):
            continue
        E = PubEngine(f, c)
        E.run()
        ctx.fn('%s:%s' % (tag, ir.unhash(f.base)))
        ctx.count('abstract_steps', E.steps)
        ctx.count('file_system_steps', len(c.sites))
        for i in c.sites.values():
            ctx.sample('%s: %s' % (ir.unhash(fname(i)), i.where()))


def depends(f, v, src):
    """does value v depend on value src, through SSA and non-escaping locals?"""
    stores = {}
    for i in f.insts():
        if i.op == 'store':
            r, _ = ir.ptr_base(f, i.ops[1])
            if isinstance(r, int):
                stores.setdefault(r, []).append(i.ops[0])
    seen, w = set(), [v]
    while w:
        x = w.pop()
        if not isinstance(x, int) or x in seen:
            continue
        if x == src:
            return True
        seen.add(x)
        i = f.inst.get(x)
        if i is None:
            continue
        if i.op == 'load':
            r, _ = ir.ptr_base(f, i.ops[0])
            if isinstance(r, int):
                w += stores.get(r, [])
        if i.op == 'alloca':
            w += stores.get(x, [])
        w += [a for a in ir.opvals(i)]
    return False


def fresh(ctx, f, tag):
    """the random number must reach an argument of a call that builds the returned name"""
    ctx.rule('a fresh name contains digits of the random number')
    rn = [i for i in f.calls() if ir.unhash(fname(i)) == 'next_u64']
    ctx.count('fresh_name_functions')
    for i in f.calls():
        if i in rn or not i.ops:
            continue
        if any(depends(f, v, r.id) for v in i.ops for r in rn):
            entropy.name_bits(ctx, f, rn, '%s: %s (%s:%s)' % (tag, ir.unhash(f.base), ir.short(f.file), f.line), '%s %s bits' % (tag, ir.unhash(f.base)))
            return
    ctx.violation('%s %s random' % (tag, ir.unhash(f.base)), '%s: no part of the name built by %s (%s:%s) comes from the random number it draws' %
                  (tag, ir.unhash(f.base), ir.short(f.file), f.line))


def generator(ctx, sigs):
    """two draws of next_u64 in one process never start from the same state"""
    ctx.rule('each random number comes from a different generator state: the state is advanced by one atomic read-modify-write')
    P = ir.load([env.snapshot_bc('lib/rand')['lib/rand']], ['-inline', '-passes', 'function(sroa,early-cse,simplifycfg)'])
    fs = [f for f in P.fns.values() if f.blocks and ir.unhash(f.base) == 'next_u64']
    if not fs:
        raise env.Broken('no next_u64 in lib/rand.fu.cpp')
    for f in fs:
        ctx.fn('lib/rand.cpp:next_u64')
        ops = [i for i in f.insts() if i.op in ('cmpxchg', 'atomicrmw')]
        ctx.count('generator_updates', len(ops))
        where = 'lib/rand.fu.cpp: next_u64 (%s:%s)' % (ir.short(f.file), f.line)
        states = {gname(f, i) for i in f.insts() if i.op in ('cmpxchg', 'atomicrmw', 'store')} - {None}
        entropy.seed_bits(ctx, P, f, sorted(states), where, 'lib/rand.cpp next_u64 seed')
        if not ops:
            if any(i.op == 'store' and isinstance(ir.ptr_base(f, i.ops[1])[0], dict) for i in f.insts()):
                ctx.violation('lib/rand.cpp next_u64 race', where + ' advances the shared state with a plain load and store: two threads can '
                              'draw the same number')
            else:
                ctx.count('generators_undecided')
            continue
        for i in ops:
            if i.op == 'cmpxchg':
                exp, new = i.ops[1], i.ops[2]
                if len(ops) > 1 and isinstance(new, int) and not from_state(f, i) and any(j.op == 'cmpxchg' and from_state(f, j) for j in ops):
                    continue                   # installs the first state
                if exp == new or not isinstance(new, int):
                    ctx.violation('lib/rand.cpp next_u64 same', where + ' installs the state it read (or a constant): the next draw repeats')
                elif not depends(f, new, exp) and not any(depends(f, new, o) for o in loads_of(f, i)):
                    ctx.violation('lib/rand.cpp next_u64 source', where + ' installs a state that is not computed from the state it replaces')
                succ = [u for u in f.users.get(i.id, ()) if u.op == 'extractvalue' and u.d.get('idx', [None]) == [1]]
                for r in f.insts():
                    if r.op == 'ret' and r.ops and isinstance(r.ops[0], int):
                        if not depends(f, r.ops[0], new) and not depends(f, r.ops[0], i.id) and not depends(f, r.ops[0], exp):
                            ctx.violation('lib/rand.cpp next_u64 result', where + ' returns a number that is not computed from the state it installed')
                ok = loops_on_failure(f, i)
                if ok is False:
                    ctx.violation('lib/rand.cpp next_u64 retry', where + ' returns even when the compare-and-swap failed: another thread draws the same number')
                elif ok is None:
                    ctx.count('generators_undecided')
            elif const(i.ops[1]) == 0:
                ctx.violation('lib/rand.cpp next_u64 same', where + ' adds nothing to the state')


def from_state(f, i):
    return isinstance(i.ops[2], int) and any(depends(f, i.ops[2], o) for o in [i.ops[1]] + loads_of(f, i))


def loads_of(f, i):
    return [j.id for j in f.insts() if j.op == 'load' and j.d.get('ord')]


def loops_on_failure(f, cx):
    """every path from the compare-and-swap to a return takes the success side of a test of its flag"""
    flags = set()
    w = [cx.id]
    while w:
        v = w.pop()
        if v in flags:
            continue
        flags.add(v)
        for u in f.users.get(v, ()):
            if u.op in ('extractvalue', 'zext', 'trunc', 'freeze', 'xor', 'icmp'):
                if u.op == 'extractvalue' and u.ty != 'i1':
                    continue
                w.append(u.id)
    tested = False
    seen, work = set(), [cx.blk]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        for e in f.succ[b]:
            if e.kind == 'br' and isinstance(e.cond, int) and e.cond in flags:
                tested = True
                x, val = f.inst[e.cond], e.val
                while x.op in ('zext', 'trunc', 'freeze', 'xor', 'icmp'):
                    if x.op == 'xor':
                        val = not val
                    elif x.op == 'icmp':
                        z = const(x.ops[1])
                        if z != 0 or x.pred not in ('eq', 'ne'):
                            return None
                        val = val if x.pred == 'ne' else not val
                    x = f.inst[x.ops[0]]
                if x.op != 'extractvalue':
                    return None
                if val:
                    continue            # success side: done
                work.append(e.dst)
            elif e.dst == cx.blk:
                continue
            else:
                work.append(e.dst)
        if f.blocks[b][-1].op == 'ret':
            return False
    return tested or None


# ---- whole contents
def linear(f, v, depth=0):
    """v as {atom: coefficient} + constant  under 'c'; None when not linear"""
    k = const(v)
    if k is not None:
        return {'c': k}
    if not isinstance(v, int):
        return {str(v): 1}
    i = f.inst.get(v)
    if i is None or depth > 30:
        return {v: 1}
    if i.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
        return linear(f, i.ops[0], depth + 1)
    if i.op in ('add', 'sub'):
        return comb(linear(f, i.ops[0], depth + 1), linear(f, i.ops[1], depth + 1), 1 if i.op == 'add' else -1)
    if i.op == 'getelementptr':
        if i.d.get('off') is not None:
            return comb(linear(f, i.ops[0], depth + 1), {'c': i.d['off']}, 1)
        if i.d.get('src') == 'i8' and len(i.ops) == 2:
            return comb(linear(f, i.ops[0], depth + 1), linear(f, i.ops[1], depth + 1), 1)
    return {v: 1}


def comb(a, b, s):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + s * c
        if not out[k]:
            del out[k]
    return out


def subst(f, lin, blk, pred):
    out = {}
    for x, c in lin.items():
        i = f.inst.get(x) if isinstance(x, int) else None
        if i is not None and i.op == 'phi' and i.blk == blk:
            v = [v for v, p in i.ops if p == pred][0]
            for k, c2 in linear(f, v).items():
                out[k] = out.get(k, 0) + c * c2
        else:
            out[x] = out.get(x, 0) + c
    return {k: c for k, c in out.items() if c}


def consts(f, v, seen=()):
    """every constant an integer may be, through select, phi and bit operations; None when unknown"""
    k = const(v)
    if k is not None:
        return {k}
    i = f.inst.get(v) if isinstance(v, int) else None
    if i is None or v in seen or len(seen) > 20:
        return set() if v in seen else None
    seen = seen + (v,)
    if i.op in ('zext', 'sext', 'trunc', 'freeze'):
        r = consts(f, i.ops[0], seen)
        if r is None and ir.is_i1(f, i.ops[0]):
            return {0, 1}
        return {x & 1 for x in r} if r and i.op == 'zext' and ir.is_i1(f, i.ops[0]) else r
    if i.op in ('select', 'phi'):
        ops = i.ops[1:] if i.op == 'select' else [x for x, _ in i.ops]
        rs = [consts(f, x, seen) for x in ops]
        return None if None in rs else set().union(*rs)
    if i.op in ('or', 'and', 'xor', 'add', 'shl', 'mul'):
        a, b = consts(f, i.ops[0], seen), consts(f, i.ops[1], seen)
        if a is None or b is None or len(a) * len(b) > 64:
            return None
        fn = {'or': lambda x, y: x | y, 'and': lambda x, y: x & y, 'xor': lambda x, y: x ^ y, 'add': lambda x, y: x + y,
              'shl': lambda x, y: x << (y & 31), 'mul': lambda x, y: x * y}[i.op]
        return {fn(x, y) for x in a for y in b}
    return None


def whole(ctx, bc, tu, tag):
    ctx.rule('a file opened for writing from scratch is truncated, and a write loop keeps the end of the data fixed and '
             'advances by exactly the count the OS returned')
    P = ir.load([bc], ['-inline', '-keepfile', 'NOTHING', '-passes', 'function(sroa,early-cse,simplifycfg)'])
    for f in P.fns.values():
        if not f.blocks or not (f.file or '').endswith(tu):
            continue
        name = ir.unhash(f.base)
        for i in f.calls():
            if i.callee in ('open', 'open64') and len(i.ops) > 1:
                fls = consts(f, i.ops[1])
                if fls is None:
                    ctx.count('open_flags_undecided')
                for fl in fls or ():
                  if fl & 3 and fl & 0o100:
                    ctx.count('creating_opens')
                    ctx.fn('%s:%s' % (tag, name))
                    if not fl & (0o1000 | 0o200 | 0o2000):
                        ctx.violation('%s %s open' % (tag, name), '%s: %s opens at %s an existing file for writing without truncating it: '
                                      'a shorter new content keeps the tail of the old one' % (tag, name, i.where()))
            if i.callee != 'write':
                continue
            if not any(i.blk in f.reach(e.dst, unwind=False) for e in f.succ[i.blk]):
                continue
            ctx.count('write_loops')
            p, n = linear(f, i.ops[1]), linear(f, i.ops[2])
            end = comb(p, n, 1)
            heads = {f.inst[x].blk for x in set(p) | set(n) if isinstance(x, int) and x in f.inst and f.inst[x].op == 'phi'}
            if len(heads) != 1:
                ctx.count('write_loops_undecided')
                continue
            h = heads.pop()
            body = f.reach(h, unwind=False)
            preds = {q for x in f.blocks[h] if x.op == 'phi' for _, q in x.ops}
            for q in sorted(preds):
                e2, p2, n2 = subst(f, end, h, q), subst(f, p, h, q), subst(f, n, h, q)
                if q in body:
                    step = comb(p2, p, -1)
                    odd = [x for x in list(step) if not x in (i.id, 'c')]
                    if odd:
                        ctx.count('write_loops_undecided')
                        continue
                    if e2 != end:
                        ctx.violation('%s %s end' % (tag, name), '%s: %s: the loop around write at %s moves the end of the data: bytes are lost or '
                                      'written twice' % (tag, name, i.where()))
                    elif step not in ({i.id: 1}, {}):
                        ctx.violation('%s %s step' % (tag, name), '%s: %s: the loop around write at %s does not advance by the number of bytes '
                                      'written' % (tag, name, i.where()))
                else:
                    bad = [x for x in e2 if isinstance(x, int) and x not in f.inst and e2[x] != 1]
                    if 'c' in e2 or bad:
                        ctx.violation('%s %s start' % (tag, name), '%s: %s: the first write at %s does not end at the end of the data' %
                                      (tag, name, i.where()))


def run(ctx):
    sigs = cxxsig.signatures(env.REPO)
    bc = env.snapshot_bc('src/build', defs=env.RAW)['src/build']
    analyse(ctx, bc, 'src/build.fu.cpp', sigs, 'src/build.cpp')
    ctx.need('file_system_steps', 10)
    generator(ctx, sigs)
    whole(ctx, env.snapshot_bc('lib/file')['lib/file'], 'lib/file.fu.cpp', 'lib/file.cpp')
    whole(ctx, env.module_bc('lib/file')['lib/file'], 'lib/file.fu.cpp', 'lib/file')
    ctx.need('creating_opens', 2)
    ctx.need('write_loops', 2)
