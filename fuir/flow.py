"""Whole-module value-provenance graph (flow-insensitive, field-based, interprocedural).

Nodes are objects (locals, globals, by-reference parameters), struct fields (one node per struct type
and field), and SSA values.  Edges say "content of a may reach b".  Runtime (include/) and external
functions are transfer functions from their signature: every argument may reach the result, the
object under construction and every mutable reference argument.  Constants are leaves labelled with
their text.  No implicit (control) flows."""
import re
from . import ir, cxxsig
from .ir import const


def user_struct(src):
    m = re.fullmatch(r'%"?(?:struct|class)\.(s_\w+|\w+_\w{4}|anon(?:\.\d+)?)"?', src or '')
    return m and m.group(1)


class Flow:
    def __init__(self, P, sigs, module, cut=()):
        self.P, self.sigs, self.module = P, sigs, module
        self.edges = {}          # dst -> set(src)
        self.lits = {}           # node -> text
        self.ext = {}            # node -> (callee base, inst, fn)
        self.cut = set(cut)      # nodes treated as leaves
        self.struct = {}
        for s, d in P.structs.items():
            self.struct[s] = d
        self.fns = {f.name: f for f in P.fns.values()}
        self.bodied = {}
        self.memo = {}
        self.sites = []          # (fn, inst, base)
        self.closure = {}        # closure field -> [(fn, captured pointer)]
        for f in P.fns.values():
            self.scan_stores(f)
        for f in P.fns.values():
            if self.local(f):
                self.function(f)

    # ---- classification
    def local(self, f):
        if f.name in self.bodied:
            return self.bodied[f.name]
        b = False
        if f.blocks and '/include/' not in f.file:
            sig = self.sigs.get(f.base)
            if sig is None:
                b = True
            else:
                mut = any(self.mutable(t) for t, _ in sig['args'])
                b = f.d.get('linkage') not in (2, 3, 4, 5) or mut      # not linkonce: defined by this module
        self.bodied[f.name] = b
        return b

    @staticmethod
    def mutable(t):
        t = t.strip()
        return 'view_mut' in t or 'range_mut' in t or (t.endswith('&') and not t.endswith('&&') and not t.startswith('const ') and not t.endswith('const&'))

    def opaque(self, s):
        """structs made only of scalars are one object"""
        d = self.struct.get(s)
        if d is None:
            return not s.startswith('anon')        # closures: one node per capture
        return all(re.fullmatch(r'(unsigned |signed )?(int|long|char|short|bool|u?int\d+_t|double|float|byte|u8|i8|fu::u8)( long| int)*', n[3] or 'x') for n in d['fields']) if d['fields'] else True

    def fieldname(self, s, idx):
        d = self.struct.get(s)
        if d and idx < len(d['fields']):
            return d['fields'][idx][0]
        return idx

    # ---- nodes
    def scan_stores(self, f):
        st = {}
        for i in f.insts():
            if i.op == 'store':
                n = self.node(f, i.ops[1])
                if n and n[0] == 'F' and n[1].startswith('anon'):
                    self.closure.setdefault(n, []).append((f, i.ops[0]))
                r, _ = ir.ptr_base(f, i.ops[1])
                if isinstance(r, int):
                    st.setdefault(r, []).append(i.ops[0])
        self.memo[f.name] = st

    def node(self, f, v):
        if isinstance(v, dict):
            if 'ce' in v:
                if v['ops']:
                    return self.node(f, v['ops'][0])
                return None
            if 'g' in v:
                n = ('G', v['g'])
                if 's' in v:
                    self.lits[n] = v['s'].rstrip('\0')
                return n
            if 'c' in v:
                return None
            return None
        i = f.inst.get(v)
        if i is None:
            return ('P', f.name, v)
        if i.op == 'alloca':
            return ('A', f.name, v)
        if i.op == 'getelementptr':
            s = user_struct(i.d.get('src'))
            if s and len(i.ops) >= 3 and const(i.ops[2]) is not None and not self.opaque(s):
                return ('F', s, self.fieldname(s, const(i.ops[2])))
            return self.node(f, i.ops[0])
        if i.op in ('bitcast', 'freeze'):
            return self.node(f, i.ops[0])
        return ('V', f.name, v)

    def targets(self, f, v, depth=0):
        """objects a write through pointer v may change"""
        n = self.node(f, v)
        out = {n} if n else set()
        if n and n[0] == 'V' and depth < 6:
            i = f.inst[n[2]]
            if i.op == 'load':
                r, _ = ir.ptr_base(f, i.ops[0])
                for x in self.memo[f.name].get(r, []) if isinstance(r, int) else []:
                    j = f.inst.get(x) if isinstance(x, int) else None
                    if not isinstance(x, int) or j is None or j.ty == 'ptr':
                        out |= self.targets(f, x, depth + 1)
                n2 = self.node(f, i.ops[0])
                if n2:
                    out.add(n2)
                for g, x in self.closure.get(n2, ()):
                    out |= self.targets(g, x, depth + 1)
            elif i.op in ('phi', 'select'):
                for x in (i.ops[1:] if i.op == 'select' else ir.opvals(i)):
                    if isinstance(x, int):
                        out |= self.targets(f, x, depth + 1)
            elif i.op in ('call', 'invoke') and i.ops and i.ty == 'ptr':
                out |= self.targets(f, i.ops[0], depth + 1)
            elif i.op == 'extractvalue':
                out |= self.targets(f, i.ops[0], depth + 1) if isinstance(i.ops[0], int) else set()
        return out

    def edge(self, src, dst):
        if src is None or dst is None or src == dst:
            return
        self.edges.setdefault(dst, set()).add(src)

    # ---- transfer
    def function(self, f):
        for i in f.insts():
            op = i.op
            if op == 'store':
                s = self.node(f, i.ops[0])
                if s is not None:
                    for t in self.targets(f, i.ops[1]):
                        self.edge(s, t)
            elif op == 'load':
                self.edge(self.node(f, i.ops[0]), ('V', f.name, i.id))
            elif op in ('call', 'invoke'):
                self.call(f, i)
            elif op == 'ret':
                if i.ops:
                    self.edge(self.node(f, i.ops[0]), ('R', f.name))
            elif op in ('br', 'switch', 'unreachable', 'resume', 'icmp', 'alloca', 'getelementptr', 'landingpad'):
                pass
            else:
                for v in (i.ops[1:] if op == 'select' else ir.opvals(i)):
                    self.edge(self.node(f, v), ('V', f.name, i.id))

    def call(self, f, i):
        cal = i.callee or ''
        if cal.startswith('llvm.'):
            if cal.startswith(('llvm.memcpy', 'llvm.memmove')):
                for t in self.targets(f, i.ops[0]):
                    self.edge(self.node(f, i.ops[1]), t)
            return
        dem = i.cdem or ''
        if '~' in dem.split('(')[0] and '::~' in dem:
            return
        g = self.P.fns.get(cal)
        ret = ('V', f.name, i.id)
        if g is not None and self.local(g):
            for k, v in enumerate(i.ops):
                if k < len(g.argids):
                    p = ('P', g.name, g.argids[k])
                    self.edge(self.node(f, v), p)
                    if isinstance(v, int) and g.args[k]['ty'] == 'ptr':
                        for t in self.targets(f, v):
                            if not self.readonly(g, k):
                                self.edge(p, t)
            self.edge(('R', g.name), ret)
            self.sites.append((f, i, cal))
            return
        from .errflow import fname
        base = fname(i)
        self.sites.append((f, i, base))
        srcs = [self.node(f, v) for v in i.ops]
        srcs = [s for s in srcs if s is not None]
        dsts = set()
        if i.ty != 'void':
            dsts.add(ret)
        if i.sret:
            dsts |= self.targets(f, i.ops[0])
        k0 = 1 if i.sret else 0
        sig = self.sigs.get(base)
        if sig is not None:
            al = self.align(f, i, sig, k0)
            if al is not None:
                for k, t in al:
                    if self.mutable(t):
                        dsts |= self.targets(f, i.ops[k])
            elif any(self.mutable(t) for t, _ in sig['args']):
                for v in i.ops[k0:]:
                    if isinstance(v, int):
                        dsts |= self.targets(f, v)
        elif cal.startswith('_Z') and not cal.startswith('_ZN') and self.demargs(dem) is not None and \
                len(self.demargs(dem)) == len(i.ops) - k0 and any(self.mutable(t) for t in self.demargs(dem)):
            for v, t in zip(i.ops[k0:], self.demargs(dem)):
                if self.mutable(t):
                    dsts |= self.targets(f, v)
        elif re.match(r'_ZN(?!K)', cal) and len(i.ops) > k0 and isinstance(i.ops[k0], int) and \
                self.method(dem):
            dsts |= self.targets(f, i.ops[k0])
        for d in dsts:
            for s in srcs:
                self.edge(s, d)
            if '/include/' not in (i.cfile or '') and not dem.startswith('fu::') and not dem.startswith('std::'):
                e = ('X', base)
                self.ext[e] = base
                self.edge(e, d)

    @staticmethod
    def demargs(dem):
        """parameter types of a demangled free function"""
        if not dem.endswith(')'):
            return None
        d, k = 0, len(dem) - 1
        while k >= 0:
            d += (dem[k] == ')') - (dem[k] == '(')
            if d == 0:
                break
            k -= 1
        return cxxsig.split_args(dem[k + 1:-1])

    def align(self, f, i, sig, k0):
        """[(operand index, C++ type)]: views and ranges passed by value take two operands"""
        out, k = [], k0
        for t, _ in sig['args']:
            if k >= len(i.ops):
                return None
            out.append((k, t))
            k += 1
            if re.match(r'(const )?fu::(view|view_mut|vec_range|vec_range_mut)<.*>$', t) and k < len(i.ops) and \
                    self.isptr(f, i.ops[k - 1]) and not self.isptr(f, i.ops[k]):
                k += 1
        return out if k == len(i.ops) else None

    @staticmethod
    def isptr(f, v):
        if isinstance(v, dict):
            return 'c' not in v
        i = f.inst.get(v)
        if i is not None:
            return i.ty == 'ptr'
        return any(a['id'] == v and a['ty'] == 'ptr' for a in f.args)

    @staticmethod
    def method(dem):
        """non-static member function: constructor, assignment, append..."""
        h = dem.split('(')[0]
        return bool(re.search(r'(\b(\w+)(<.*>)?::\2(<.*>)?$)|operator[-+*/|^~]?=$|::(push|append|insert|splice|add|clear|reserve|resize|shrink|ptr_reassign|init_\w+|_Splice|_Create|_Grow)\w*(<.*>)?$', h)) or '&)' in dem and '::operator' in h

    def readonly(self, g, k):
        sig = self.sigs.get(g.base)
        if sig is None:
            return False
        if g.args[k].get('sret'):
            return False
        nm = re.sub(r'\.(coerce\d*|addr)$', '', g.args[k]['nm'])
        for t, n in sig['args']:
            if n == nm:
                return not self.mutable(t)
        return False

    # ---- queries
    def back(self, starts, stop=lambda n: False):
        """all nodes whose content may reach one of starts"""
        seen, w = set(), [s for s in starts if s is not None]
        while w:
            n = w.pop()
            if n in seen:
                continue
            seen.add(n)
            if n in self.cut or stop(n):
                continue
            w += self.edges.get(n, ())
        return seen

    def leaves(self, starts):
        out = set()
        for n in self.back(starts):
            if n in self.cut or n[0] == 'X' or n in self.lits or not self.edges.get(n):
                out.add(n)
        return out

    def path(self, start, leaf):
        """one chain of nodes from leaf to start (for reports)"""
        par, w = {start: None}, [start]
        while w:
            n = w.pop(0)
            if n == leaf:
                out = []
                while n is not None:
                    out.append(n)
                    n = par[n]
                return out
            if n in self.cut:
                continue
            for s in self.edges.get(n, ()):
                if s not in par:
                    par[s] = n
                    w.append(s)
        return []

    def name(self, n):
        if n in self.lits:
            return repr(self.lits[n])
        if n[0] in 'PAV':
            f = self.fns[n[1]]
            nm = sorted(f.names.get(n[2], [])) or [a['nm'] for a in f.args if a['id'] == n[2]]
            return '%s:%s' % (ir.unhash(f.base), nm[0] if nm else '%' + str(n[2]))
        if n[0] == 'F':
            return '%s.%s' % (ir.unhash(n[1]), n[2])
        return str(n[-1])
