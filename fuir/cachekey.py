"""Cache keys of build products.

The names of cached objects and executables are digests.  A product is rebuilt only when no file of its
name exists, so everything that determines its content must reach the name: for every rename of a fresh
product to its final name, every input of the command that produced it must be an input of the name."""
import os, re
from . import env, ir, cxxsig, flow, pub
from .errflow import fname

# words of a command line that change no byte of the product, that the other words of the line imply, or
# (-shared) that only occur in runs that move the product away
NEUTRAL = re.compile(r'^(|-W[a-z].*|-pedantic\S*|-o|-c|-I|-iquote|-shared|-pthread|-ldl|\$\(pkg-config|--libs|--cflags|\)|\.o|\.cpp|include|[-/])$')


class KeyFlow(flow.Flow):
    """flow graph of the inlined driver: one copy of every helper per call"""
    def __init__(self, P, sigs, module, roots):
        self.roots = roots
        self.part = set()        # edges that may carry only a part of the text
        super().__init__(P, sigs, module)

    def local(self, f):
        return bool(f.blocks) and '/include/' not in f.file and re.sub(r'\.inl$', '', f.name) in self.roots

    def call(self, f, i):
        # a length or an emptiness test is not the content
        if re.match(r'i\d+$', i.ty or '') and re.search(r'(::size|::operator bool)\(\)( const)?$', re.sub(r' \[.*\]$', '', i.cdem or '')):
            self.edge(('X', 'size'), ('V', f.name, i.id))
            return
        if re.search(r'(^|::)(slice|substr|get_view\w*|get_range\w*)(<.*>)?\(', i.cdem or ''):
            old, self.edge = self.edge, lambda a, b: (self.part.add((a, b)), old(a, b))
            super().call(f, i)
            del self.edge
            return
        super().call(f, i)

    def node(self, f, v):
        n = super().node(f, v)
        if n is not None and n[0] == 'A':
            s = flow.user_struct(f.inst[n[2]].d.get('at'))
            if s and s.startswith('anon'):
                return ('F', s, 0)
        return n


def inlined(bc, tu):
    P = ir.load([bc], ['-notypes', '-passes', 'function(mem2reg)'])
    mine = [f for f in P.fns.values() if f.blocks and f.file and f.file.endswith(tu)]
    called, byinc = set(), set()
    for f in P.fns.values():
        for i in f.calls():
            if i.callee:
                called.add(i.callee)
                if f.file and '/include/' in f.file:
                    byinc.add(i.callee)
    roots = [f for f in mine if f.name in byinc or f.name not in called]
    Q = ir.load([bc], ['-inline'] + sum([['-root', pub.rootrx(f)] for f in roots], []) +
                ['-keepfile', '/include/', '-passes', 'function(mem2reg)'])
    return Q, {r.name for r in roots}


def shared_structs():
    """struct types other modules of the compiler fill in as well: what this module stores in their
    fields is not all they may hold"""
    import glob
    n = {}
    for p in glob.glob(os.path.join(env.REPO, 'src/*.fu.cpp')):
        for m in set(re.findall(r'^struct (s_\w+)$', open(p, errors='replace').read(), re.M)):
            n[m] = n.get(m, 0) + 1
    return {m for m, k in n.items() if k > 1}


class Whole:
    """the same graph without the edges that may carry only a part of a text"""
    def __init__(self, F):
        self.cut, self.lits, self.shared, self.fns = F.cut, F.lits, F.shared, F.fns
        self.edges = {d: [s for s in L if (s, d) not in F.part] for d, L in F.edges.items()}
        self.all = F.edges

    back = flow.Flow.back


def atoms(F, n):
    """inputs of a string: literals, parameters, fields, file contents; not the helpers it went through"""
    b = F.back([n])
    out = {x for x in b if x[0] == 'F' and x[1] in F.shared}
    for x in b:
        if x in F.cut or x[0] == 'X' or x in F.lits or not getattr(F, 'all', F.edges).get(x):
            if x[0] == 'X' and ir.unhash(x[1]) != 'read':
                continue
            if x[0] == 'V' and re.match(r'i\d+$', F.fns[x[1]].inst[x[2]].ty if x[1] in F.fns and x[2] in F.fns[x[1]].inst else ''):
                continue                        # a number computed from constants alone: an index
            out.add(x)
    return out


def neutral(F, x):
    if x in F.lits:
        return all(NEUTRAL.match(w) for w in re.split(r'\s+', F.lits[x]))
    return False


def words(F, n):
    return ' '.join(F.lits[x] for x in F.leaves([n]) if x in F.lits)


def products(F):
    """(function, rename to the cached name, command that made the file) for every product, and the
    commands whose output never reaches a cached name"""
    by = {}
    for f, i, b in F.sites:
        u = ir.unhash(fname(i))
        if u in ('exec', 'spawn', 'rename', 'size', 'write') and F.local(f) and (i.callee or '').startswith('_Z') and (i.callee or '')[2:3].isdigit():
            by.setdefault((f.name, u), []).append((f, i))
    back = {}

    def bk(f, v):
        n = F.node(f, v)
        if n not in back:
            back[n] = F.back([n]) if n else set()
        return back[n]
    prods, stray = [], []
    for name in sorted({n for n, u in by}):
        rs = []
        for f, i in by.get((name, 'rename'), []):
            src, dst = i.ops[1 if i.sret else 0:][:2]
            fresh = bk(f, src) - bk(f, dst)
            if any(x[0] == 'X' and ir.unhash(x[1]) == 'next_u64' for x in fresh):
                rs.append((f, i, {x for x in fresh if x[0] == 'A'}))
        for g, e in by.get((name, 'exec'), []) + by.get((name, 'spawn'), []):
            c = e.ops[1 if e.sret else 0]
            hit = [i for f, i, own in rs if own & bk(g, c)]
            prods += [(g, i, e) for i in hit]
            if not hit and re.search(r'(^| )-o( |$)', words(F, F.node(g, c))):
                stray.append((g, e))
    return by, prods, stray


# ---- outcome walks: which sites can still be reached once a call is known to have returned a value

CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
       'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}


def width(ty):
    m = re.match(r'i(\d+)$', ty or '')
    return int(m.group(1)) if m else 64


def norm(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if w > 1 and v >> (w - 1) else v


class Walk:
    """forward walk over the inlined function carrying the constants that follow from one call's outcome"""
    def __init__(self, f, limit=20000):
        self.f, self.limit = f, limit

    def live(self):
        """ids read by each block or by one it leads to"""
        f = self.f
        if getattr(self, '_live', None) is None:
            use = []
            for b in f.blocks:
                u = set()
                for i in b:
                    u |= {o for o in (ir.opvals(i)) if isinstance(o, int)}
                use.append(u)
            L = [set(u) for u in use]
            ch = True
            while ch:
                ch = False
                for b in reversed(f.rpo()):
                    n = len(L[b])
                    for e in f.succ[b]:
                        L[b] |= L[e.dst]
                    ch |= len(L[b]) != n
            self._live = L
        return self._live

    def again(self, b):
        """edges that begin another iteration of a loop around block b"""
        f = self.f
        dom = f.dom()
        return {(e.src, e.dst) for es in f.succ for e in es if e.dst in dom.get(e.src, ()) and e.dst in dom.get(b, ())}

    def reaching(self, targets, cut):
        f = self.f
        ok = {f.inst[t].blk for t in targets}
        w = list(ok)
        while w:
            for e in f.pred[w.pop()]:
                if e.src not in ok and (e.src, e.dst) not in cut:
                    ok.add(e.src)
                    w.append(e.src)
        return ok

    def val(self, E, o):
        if isinstance(o, int):
            return E.get(o)
        c = ir.const(o)
        return c if isinstance(c, int) else None

    def op(self, E, i):
        f = self.f
        if i.op == 'icmp':
            a, b = self.val(E, i.ops[0]), self.val(E, i.ops[1])
            if a is None or b is None:
                return None
            w = 64
            for o in i.ops:
                if isinstance(o, int) and o in f.inst:
                    w = width(f.inst[o].ty)
            a, b = norm(a, w), norm(b, w)
            if i.pred in CMP:
                return int(CMP[i.pred](a, b))
            a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
            return int(CMP['s' + i.pred[1:]](a, b))
        if i.op in ('trunc', 'sext', 'zext', 'freeze'):
            a = self.val(E, i.ops[0])
            if a is None:
                return None
            s = f.inst.get(i.ops[0]) if isinstance(i.ops[0], int) else None
            if i.op == 'zext' and s is not None:
                a &= (1 << width(s.ty)) - 1
            return norm(a, width(i.ty)) if width(i.ty) > 1 else a & 1
        if i.op == 'select':
            c, a, b = (self.val(E, o) for o in i.ops)
            return (a if c else b) if c is not None else (a if a == b else None)
        if i.op in ('and', 'or', 'xor'):          # no sums: loop counters would unroll
            a, b = self.val(E, i.ops[0]), self.val(E, i.ops[1])
            if i.op == 'and' and (a == 0 or b == 0):
                return 0
            if i.op == 'or' and i.ty == 'i1' and (a in (1, -1) or b in (1, -1)):
                return 1
            if a is None or b is None:
                return None
            r = {'and': a & b, 'or': a | b, 'xor': a ^ b}[i.op]
            return norm(r, width(i.ty)) if width(i.ty) > 1 else r & 1
        return None

    def slot(self, p):
        r, off = ir.ptr_base(self.f, p)
        if off == 0 and isinstance(r, int) and r in self.f.inst and self.f.inst[r].op == 'alloca':
            return ('m', r)
        return None

    def slice(self, ids):
        """values and local variables that depend on the given ones, directly or on which way a branch on them went"""
        f, use = self.f, {}
        for i in f.inst.values():
            for o in i.ops:
                o = o[0] if i.op == 'phi' else o
                if isinstance(o, int):
                    use.setdefault(o, []).append(i)
        out, work = set(ids), list(ids)
        while work:
            x = work.pop()
            ys = set()
            for i in use.get(x, ()):
                if i.op == 'br':               # flags set where the branch leads
                    near = {i.blk}
                    for _ in range(3):
                        near |= {e.dst for b in near for e in f.succ[b] if e.kind != 'unw'}
                    for b in near:
                        for j in f.blocks[b]:
                            if j.op == 'phi' and any(not isinstance(o, int) for o, p in j.ops):
                                ys.add(j.id)
                            elif j.op == 'store' and not isinstance(j.ops[0], int) and self.slot(j.ops[1]):
                                ys.add(self.slot(j.ops[1])[1])
                elif i.op == 'store':
                    if i.ops[0] == x and self.slot(i.ops[1]):
                        ys.add(self.slot(i.ops[1])[1])
                elif i.op not in ('call', 'invoke'):
                    ys.add(i.id)
            work += ys - out
            out |= ys
        return out

    def run(self, start, result, out, targets, once=False, known={}, stops=(), keep=None):
        """instruction ids among targets that some path after start reaches before start runs again;
        result: what start returned; out: {slot: value} it left in memory.  None: too many paths."""
        f = self.f
        E0 = dict(out)
        if result is not None:
            E0[start.id] = result
        hit, seen, self.skips = set(), set(), set()
        cut = self.again(start.blk) if once else set()
        L, R = self.live(), self.reaching(targets, cut)
        if start.op == 'invoke':
            work = [(start.d['to'], start.blk, 0, E0)]
        else:
            work = [(start.blk, None, start.pos + 1, E0)]
        while work:
            b, pred, pos, E = work.pop()
            if b not in R:
                continue
            E = dict(E)
            if pos == 0:
                new = {}
                for i in f.blocks[b]:
                    if i.op != 'phi':
                        break
                    o = next((o for o, p in i.ops if p == pred), None)
                    new[i.id] = self.val(E, o) if o is not None and isinstance(o, (int, dict)) else None
                for k, v in new.items():
                    if v is None:
                        E.pop(k, None)
                    else:
                        E[k] = v
                E = {k: v for k, v in E.items() if (k[1] if isinstance(k, tuple) else k) in L[b]
                     and (keep is None or (k[1] if isinstance(k, tuple) else k) in keep)}
                key = (b, frozenset(E.items()))
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > self.limit:
                    return None
            dead = False
            for i in f.blocks[b][pos:]:
                if i.op == 'phi':
                    continue
                if i.id in targets:
                    hit.add(i.id)
                if i.id == start.id or i.id in stops:
                    dead = True
                    break
                if i.op == 'store':
                    s = self.slot(i.ops[1])
                    if s:
                        v = self.val(E, i.ops[0])
                        if v is None:
                            E.pop(s, None)
                        else:
                            E[s] = v
                    continue
                if i.op == 'load':
                    s = self.slot(i.ops[0])
                    v = E.get(s) if s else None
                elif i.op in ('call', 'invoke'):
                    v = known.get(i.id)
                    for o in i.ops:
                        s = self.slot(o) if isinstance(o, int) else None
                        if s:
                            E.pop(s, None)
                    if i.noret:
                        dead = True
                        break
                else:
                    v = self.op(E, i)
                if v is None:
                    E.pop(i.id, None)
                else:
                    E[i.id] = v
            if dead:
                continue
            for e in f.succ[b]:
                if e.kind == 'unw':
                    continue
                c = self.val(E, e.cond) if e.cond is not None and e.kind in ('br', 'sw', 'swdef') else None
                if c is not None:
                    if e.kind == 'br' and bool(c) != e.val:
                        continue
                    if e.kind == 'sw' and c != e.val:
                        continue
                    if e.kind == 'swdef' and c in e.val:
                        continue
                if e.dst not in R or (b, e.dst) in cut:
                    self.skips.add((b, e.dst))
                    continue
                work.append((e.dst, b, 0, E))
        return hit


def who(i):
    return ir.unhash((i.loc[0][2] if i.loc else i.fn.base).split('(')[0])


def roots_of(F, f, v):
    """the local strings a file name argument is a copy of"""
    return {x for x in F.back([F.node(f, v)]) if x[0] == 'A'}


def emptiness(F, f, o, n, seen=()):
    """value of a branch condition when the text or list it tests has n > 0 elements, with what it tests"""
    if not isinstance(o, int):
        c = ir.const(o)
        return (c, None) if isinstance(c, int) else None
    i = f.inst.get(o)
    if i is None or o in seen:
        return None
    R = lambda x: emptiness(F, f, x, n, seen + (o,))
    if i.op in ('call', 'invoke'):
        m = re.search(r'::(size|operator bool|operator!)\(\)( const)?$', re.sub(r' \[.*\]$', '', i.cdem or ''))
        return m and ({'size': n, 'operator bool': 1, 'operator!': 0}[m.group(1)], i.ops[0])
    if i.op in ('zext', 'sext', 'trunc', 'freeze'):
        return R(i.ops[0])
    if i.op in ('xor', 'and', 'icmp'):
        a, b = R(i.ops[0]), R(i.ops[1])
        if a is None or b is None or (a[1] is None) == (b[1] is None):
            return None
        x = a[1] if b[1] is None else b[1]
        if i.op == 'icmp':
            p = i.pred.replace('u', 's') if i.pred[0] == 'u' else i.pred
            return int(CMP[p](a[0], b[0])), x
        w = 1 if i.ty == 'i1' else 64
        return norm(a[0] ^ b[0] if i.op == 'xor' else a[0] & b[0], 64) & ((1 << w) - 1), x
    return None


def guards(ctx, F, f, i, dst, cmd, who_i):
    """An input added to the name on a condition on that very input: whenever there is one, it is added."""
    bd = F.back([F.node(f, dst)])
    for j in f.calls():
        a = j.ops[1 if j.sret else 0:]
        if len(a) < 2 or 'operator+=' not in (j.cdem or '') or F.node(f, a[0]) not in bd:
            continue
        add = {x for x in atoms(F, F.node(f, a[1])) if x[0] != 'G' and x not in F.lits} & cmd
        if not add:
            continue
        ctx.count('name_parts')
        for b, blk in enumerate(f.blocks):
            t = blk[-1] if blk else None
            if t is None or t.op != 'br' or 't' not in t.d:
                continue
            T, E = (j.blk in f.reach(x, stop=(b,)) for x in (t.d['t'], t.d['f']))
            if T == E:
                continue
            for n in (1, 2, 3, 17):
                r = emptiness(F, f, t.ops[0], n)
                if r is None or r[1] is None:
                    break
                tested = {x for x in atoms(F, F.node(f, r[1])) if x[0] != 'G'} & add
                if not tested:
                    break
                ctx.count('name_guards')
                if bool(r[0]) != T:
                    ctx.violation('src/build.fu.cpp:%s:unless:%s' % (who_i, F.name(sorted(tested, key=str)[0])),
                                  '%s adds %s to the name under which %s caches a product only on a condition (%s) that fails for %s %d element%s: '
                                  'builds that differ only there share the file' % (j.where(), F.name(sorted(tested, key=str)[0]), i.where(), t.where(),
                                                                               'one with', n, 's' * (n > 1)))
                    break


def strangers(ctx, F, f, i, e, W, by, moved, name, away):
    """Something else is also stored under the name of a product (the status a run ended with): it must not be
    published where the user asked for the product."""
    pubs = [j for n, j in moved if n == f.name and j is not i and away and
            set(F.leaves([F.node(f, j.ops[1 if j.sret else 0:][0])])) == name]
    other = [j for n, j in moved if n == f.name and j is not i and j not in pubs and
             set(F.leaves([F.node(f, j.ops[1 if j.sret else 0:][1])])) == name]
    for j in pubs:
        d = F.node(f, j.ops[1 if j.sret else 0:][1])
        known = {}
        for c in f.calls():
            if re.search(r'::(operator bool|operator!|size)\(\)( const)?$', re.sub(r' \[.*\]$', '', c.cdem or '')) and c.ops:
                if F.node(f, c.ops[0]) == d or set(F.leaves([F.node(f, c.ops[0])])) == set(F.leaves([d])):      # or a view of it
                    known[c.id] = 0 if 'operator!' in c.cdem else 1
        for o in other:
            ctx.count('names_with_other_content')
            r = W.run(e, 0, {}, {o.id}, True, known, {j.id}, W.slice(list(known)))
            if r and W.run(o, 0, {}, {j.id}, True, known, {e.id}, W.slice(list(known))):
                ctx.violation('src/build.fu.cpp:%s:overwritten' % who(i), '%s stores something else under the name of the product that %s then moves to where '
                              'the user asked for the product' % (o.where(), j.where()))
        if other:
            for g, s in by.get((f.name, 'size'), []):
                if g is not f or set(F.leaves([F.node(f, s.ops[1 if s.sret else 0])])) != name or s.blk not in W.reaching({e.id}, W.again(s.blk)):
                    continue
                # the command not run: nothing has replaced it
                r = W.run(s, 4, {}, {j.id}, True, known, {e.id}, W.slice([s.id, *known]))
                ctx.count('names_reused')
                if r is None:
                    ctx.count('undecided')
                elif r:
                    ctx.violation('src/build.fu.cpp:%s:stranger' % who(i), '%s: when the file of that name is the one %s stores (4 bytes), %s moves it to where the '
                                  'user asked for the product, without running %s' % (s.where(), other[0].where(), j.where(), e.where()))


def run(ctx):
    ctx.rule('what else is stored under the name of a product is never published as the product')
    ctx.rule('an input that is added to the name on a condition on itself is added whenever it is not empty')
    ctx.rule('every input of the command that produces a cached file is an input of the name under which it is cached')
    ctx.rule('every input of a file written for that command is an input of the name as well')
    ctx.rule('a file gets its cached name only by renaming a fresh file, and only when the command that wrote it succeeded')
    ctx.rule('the command is skipped only when a non-empty file of exactly the cached name exists')
    bc = env.snapshot_bc('src/build', defs=env.RAW)['src/build']
    Q, roots = inlined(bc, 'src/build.fu.cpp')
    F = KeyFlow(Q, cxxsig.signatures(env.REPO), 's', roots)
    F.shared = shared_structs()
    G = Whole(F)
    by, prods, stray = products(F)
    for g, e in stray:
        ctx.violation('src/build.fu.cpp:%s:direct' % who(e), '%s runs a command with an -o output that is not a fresh file renamed afterwards: '
                      'a build that is interrupted or races another leaves a partial file under a name that counts as finished' % e.where())
    moved = [(f.name, i) for (n, u), L in by.items() if u == 'rename' for f, i in L]
    for f, i, e in prods:
        ctx.count('products')
        ctx.fn('src/build.fu.cpp:' + who(i))
        ke = 1 if e.sret else 0
        dst = i.ops[1 if i.sret else 0:][1]
        cmd, key = atoms(F, F.node(f, e.ops[ke])), atoms(F, F.node(f, dst))
        wcmd, wkey = atoms(G, F.node(f, e.ops[ke])), atoms(G, F.node(f, dst))
        name = set(F.leaves([F.node(f, dst)]))
        own = {x for x in F.leaves([F.node(f, i.ops[1 if i.sret else 0])]) if x not in name}
        away = set()
        for n, j in moved:            # moved to where the user asked for it: does not stay cached
            if n == f.name and j is not i:
                s, d = j.ops[1 if j.sret else 0:][:2]
                if set(F.leaves([F.node(f, s)])) == name:
                    away |= atoms(F, F.node(f, d)) - key
        ctx.count('command_inputs', len(cmd))
        ctx.count('name_inputs', len(key))
        ctx.sample('%s -> %s' % (e.where(), i.where()))
        for x in sorted((cmd - key | wcmd - wkey) - own - away, key=str):
            if neutral(F, x):
                ctx.count('neutral_words')
                continue
            if x[0] == 'G' and ('NIL' in str(x) or x[1].startswith('.str')):      # the empty string
                continue
            ctx.violation('src/build.fu.cpp:%s:%s' % (who(i), F.name(x)),
                          '%s: %s goes into the command, but not (or not whole) into the name under which %s caches what it produced: '
                          'a later build that differs only there reuses the stale file' % (e.where(), F.name(x), i.where()))
        guards(ctx, F, f, i, dst, cmd, who(i))
        # how much of the digest the name keeps
        bd = F.back([F.node(f, dst)])
        for g, j, b in F.sites:
            d = {'hash16': 16, 'hash62': 11}.get(ir.unhash(fname(j)))
            if d and j.sret and F.node(g, j.ops[0]) in bd:
                ctx.count('digests')
                c = ir.const(j.ops[-1])
                if isinstance(c, int) and 0 < c < d:
                    ctx.violation('src/build.fu.cpp:%s:digits' % who(j), '%s keeps %d of %d digits of the digest in the name: different inputs '
                                  'come to share a cached file' % (j.where(), c, d))
        # files this function writes for the command to read: named in it, so their content counts
        for g, w in by.get((f.name, 'write'), []):
            nm, data = w.ops[1 if w.sret else 0:][:2]
            names = [nm] + [j.ops[1 if j.sret else 0:][1] for n, j in moved if n == f.name
                            and roots_of(F, f, j.ops[1 if j.sret else 0:][0]) & roots_of(F, f, nm)]
            inc = F.back([F.node(f, e.ops[ke])]) - roots_of(F, f, dst)
            if not any(roots_of(F, f, x) & inc for x in names) or e.blk not in f.reach(w.blk):
                continue
            ctx.count('command_files')
            for x in sorted((atoms(F, F.node(f, data)) - key) | (atoms(G, F.node(f, data)) - wkey), key=str):
                if x in F.lits and not F.lits[x].strip() or x[0] == 'G' and ('NIL' in str(x) or x[1].startswith('.str')):
                    continue
                ctx.violation('src/build.fu.cpp:%s:content:%s' % (who(i), F.name(x)),
                              '%s: %s goes into the file the command at %s reads, but not (or not whole) into the name under which %s caches what it produced'
                              % (w.where(), F.name(x), e.where(), i.where()))
        # success before renaming
        W = Walk(f)
        outs = [s for s in (W.slot(o) for o in e.ops if isinstance(o, int)) if s and width(f.inst[s[1]].d.get('at')) == 32
                and f.inst[s[1]].d.get('at') == 'i32']
        cases = [(v, {}) for v in (1, -1, 127, 256, 32512)] + [(0, {s: v}) for s in outs for v in (1, -1, 256, 32512)]
        for v, o in cases:
            r = W.run(e, v, o, {i.id})
            ctx.count('outcomes')
            if r is None:
                ctx.count('undecided')
            elif r:
                ctx.violation('src/build.fu.cpp:%s:failed' % who(i), '%s is reached after the command run by %s has failed (%s): '
                              'what it left is cached as if it were the finished product' % (
                                  i.where(), e.where(), 'status %d' % list(o.values())[0] if o else 'returned %d' % v))
                break
        strangers(ctx, F, f, i, e, W, by, moved, name, away)
        # reuse
        for g, s in by.get((f.name, 'size'), []):
            if g is not f:
                continue
            res = {}
            for v in (-2, -1, 0, 1):
                h = W.run(s, v, {}, {e.id}, True)
                res[v] = None if h is None else (bool(h), set(W.skips))
            if None in res.values():
                ctx.count('undecided')
                continue
            less = [v for v in res if v != -1 and (res[v][1] - res[-1][1] or res[-1][0] > res[v][0])]
            if not less:                   # it does not decide whether the command is run
                continue
            ctx.count('reuse_guards')
            if set(F.leaves([F.node(f, s.ops[1 if s.sret else 0])])) != name:
                ctx.violation('src/build.fu.cpp:%s:guard' % who(i), '%s looks at a different file than the one %s creates, yet decides whether the command is run'
                              % (s.where(), i.where()))
            for v in less:
                if v < 1:
                    ctx.violation('src/build.fu.cpp:%s:empty' % who(i), '%s: when the size is %d (%s) the command at %s is skipped and the file is used as it is'
                                  % (s.where(), v, 'an empty file' if v == 0 else 'no such file', e.where()))
                    break
    ctx.need('products', 2)
