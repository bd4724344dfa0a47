"""In-memory model of the IR that tools/irdump prints: functions, blocks, edges with conditions,
dominators, and small SSA helpers (pointer provenance, atomic facts of a branch condition)."""
import json, re
from . import env

NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'blk', 'pos', 'd', 'fn')

    def __init__(self, d, blk, pos, fn):
        self.id, self.op, self.ty, self.ops, self.blk, self.pos, self.d, self.fn = \
            d['id'], d['op'], d['ty'], d['ops'], blk, pos, d, fn

    def __getattr__(self, k):
        return self.d.get(k)

    @property
    def loc(self):
        return self.d.get('loc') or []

    def where(self):
        l = self.loc
        if not l:
            return '%s:%s' % (short(self.fn.file), self.fn.line)
        s = '%s:%d (in %s)' % (short(l[0][0]), l[0][1], unhash(l[0][2]))
        if len(l) > 1:
            s += ' <- ' + ' <- '.join('%s:%d' % (short(x[0]), x[1]) for x in l[1:4])
        return s

    def __repr__(self):
        return '<%%%d=%s %s>' % (self.id, self.op, self.callee or '')


TERM = {'br', 'ret', 'switch', 'invoke', 'unreachable', 'resume', 'cleanupret', 'catchret', 'catchswitch'}


def short(p):
    if not p:
        return '?'
    p = re.sub(r'^.*/(tree-[0-9a-f]+|t)/', '', p)
    p = p.replace('gen/', '')
    return p


def unhash(n):
    return re.sub(r'_([0-9A-Za-z]{8}|[0-9A-Za-z]{4})$', '', n or '?')


class Edge:
    __slots__ = ('src', 'dst', 'kind', 'cond', 'val')

    def __init__(self, src, dst, kind, cond=None, val=None):
        self.src, self.dst, self.kind, self.cond, self.val = src, dst, kind, cond, val


class Fn:
    def __init__(self, d):
        self.d = d
        self.name, self.dem, self.base = d['name'], d['dem'], d.get('base') or d['name']
        if self.dem.endswith('.inl'):
            self.dem = self.dem[:-4]
        self.dem = re.sub(r' \(\.inl\)$', '', self.dem)
        self.file, self.line, self.args = d.get('file') or '', d.get('line'), d['args']
        self.argids = [a['id'] for a in self.args]
        self.blocks, self.inst = [], {}
        for bi, b in enumerate(d['blocks']):
            L = [Inst(x, bi, p, self) for p, x in enumerate(b)]
            self.blocks.append(L)
            for i in L:
                self.inst[i.id] = i
        self.names = {int(k): v for k, v in d['names'].items()}
        self._succ = self._pred = self._dom = self._users = None

    def insts(self):
        for b in self.blocks:
            yield from b

    def calls(self, rx=None):
        for i in self.insts():
            if i.op in ('call', 'invoke') and (rx is None or (i.callee and re.fullmatch(rx, i.callee))):
                yield i

    @property
    def succ(self):
        if self._succ is None:
            self._succ = []
            for bi, b in enumerate(self.blocks):
                t, es = b[-1], []
                if t.op == 'br':
                    if 't' in t.d:
                        es = [Edge(bi, t.d['t'], 'br', t.ops[0], True), Edge(bi, t.d['f'], 'br', t.ops[0], False)]
                    else:
                        es = [Edge(bi, t.d['to'], 'goto')]
                elif t.op == 'switch':
                    es = [Edge(bi, x, 'sw', t.ops[0], c) for c, x in t.d['cases']]
                    es.append(Edge(bi, t.d['def'], 'swdef', t.ops[0], [c for c, _ in t.d['cases']]))
                elif t.op == 'invoke':
                    es = [Edge(bi, t.d['to'], 'to', t.id), Edge(bi, t.d['unw'], 'unw', t.id)]
                self._succ.append(es)
            self._pred = [[] for _ in self.blocks]
            for es in self._succ:
                for e in es:
                    self._pred[e.dst].append(e)
        return self._succ

    @property
    def pred(self):
        self.succ
        return self._pred

    @property
    def users(self):
        if self._users is None:
            u = {}
            for i in self.insts():
                for v in opvals(i):
                    if isinstance(v, int):
                        u.setdefault(v, []).append(i)
                if isinstance(i.d.get('cv'), int):
                    u.setdefault(i.d['cv'], []).append(i)
            self._users = u
        return self._users

    def dom(self):
        """dom()[b] = set of blocks dominating b."""
        if self._dom is None:
            n = len(self.blocks)
            order = self.rpo()
            dom = {order[0]: {order[0]}}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    ps = [dom[e.src] for e in self.pred[b] if e.src in dom]
                    if not ps:
                        continue
                    s = set.intersection(*ps) | {b}
                    if dom.get(b) != s:
                        dom[b] = s
                        ch = True
            self._dom = dom
        return self._dom

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succ[0]))] if self.blocks else []
        seen.add(0)
        while st:
            b, it = st[-1]
            for e in it:
                if e.dst not in seen:
                    seen.add(e.dst)
                    st.append((e.dst, iter(self.succ[e.dst])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def reach(self, start, stop=(), unwind=True):
        seen, w = set(), [start]
        while w:
            b = w.pop()
            if b in seen or b in stop:
                continue
            seen.add(b)
            for e in self.succ[b]:
                if e.kind == 'unw' and not unwind:
                    continue
                w.append(e.dst)
        return seen

    def dominates(self, a, b):
        """inst a executes before inst b on every path to b."""
        if a.blk == b.blk:
            return a.pos < b.pos
        return a.blk in self.dom().get(b.blk, ())

    def where(self):
        return '%s:%s (%s)' % (short(self.file), self.line, unhash(self.base))

    def __repr__(self):
        return '<Fn %s>' % self.dem


def opvals(i):
    if i.op == 'phi':
        return [v for v, _ in i.ops]
    return i.ops


def const(v):
    if isinstance(v, dict):
        if 'c' in v:
            return v['c']
        if 'null' in v:
            return 0
        if 'zero' in v:
            return 0
    return None


def atoms(fn, v, truth, depth=0, edge_env=None):
    """Atomic facts implied by i1 value v == truth: list of (pred, a, b, inst) comparisons plus
    ('val', v, truth, inst) for opaque i1 values."""
    if depth > 12:
        return []
    if not isinstance(v, int):
        k = const(v)
        return [('false', None, None, None)] if k is not None and (k != 0) != truth else []
    i = fn.inst.get(v)
    if i is None:
        return [('val', v, truth, None)]
    if i.op == 'icmp':
        a, b = i.ops
        p = i.pred if truth else NEG[i.pred]
        # comparisons against bool / zero of an i1 zext
        for x, y, pp in ((a, b, p), (b, a, SWAP[p])):
            c = const(y)
            if c is not None and isinstance(x, int) and x in fn.inst:
                j = fn.inst[x]
                if j.op in ('zext', 'sext') and isinstance(j.ops[0], int) and is_i1(fn, j.ops[0]) and pp in ('eq', 'ne'):
                    t = (pp == 'eq') == (c != 0)
                    if c in (0, 1, -1):
                        return atoms(fn, j.ops[0], t, depth + 1) + [(p, a, b, i)]
        return [(p, a, b, i)]
    if i.op == 'xor' and const(i.ops[1]) in (-1, 1) and i.ty == 'i1':
        return atoms(fn, i.ops[0], not truth, depth + 1)
    if i.op == 'and' and truth and i.ty == 'i1':
        return atoms(fn, i.ops[0], True, depth + 1) + atoms(fn, i.ops[1], True, depth + 1)
    if i.op == 'or' and not truth and i.ty == 'i1':
        return atoms(fn, i.ops[0], False, depth + 1) + atoms(fn, i.ops[1], False, depth + 1)
    if i.op == 'select' and i.ty == 'i1':
        c, a, b = i.ops
        if truth and const(b) == 0:
            return atoms(fn, c, True, depth + 1) + atoms(fn, a, True, depth + 1)
        if not truth and const(a) in (1, -1):
            return atoms(fn, c, False, depth + 1) + atoms(fn, b, False, depth + 1)
        if truth and const(a) == 0:
            return atoms(fn, c, False, depth + 1) + atoms(fn, b, True, depth + 1)
        if not truth and const(b) in (1, -1):
            return atoms(fn, c, True, depth + 1) + atoms(fn, a, False, depth + 1)
    if i.op == 'trunc' and i.ty == 'i1' and isinstance(i.ops[0], int):
        j = fn.inst.get(i.ops[0])
        if j is not None and j.op == 'zext' and isinstance(j.ops[0], int) and is_i1(fn, j.ops[0]):
            return atoms(fn, j.ops[0], truth, depth + 1)
    if i.op == 'freeze':
        return atoms(fn, i.ops[0], truth, depth + 1)
    return [('val', v, truth, i)]


def is_i1(fn, v):
    i = fn.inst.get(v)
    if i is not None:
        return i.ty == 'i1'
    for a in fn.args:
        if a['id'] == v:
            return a['ty'] == 'i1'
    return False


def edge_atoms(fn, e):
    if e.kind == 'br':
        return atoms(fn, e.cond, e.val)
    if e.kind == 'sw':
        return [('eq', e.cond, {'c': e.val, 'w': 64}, None)]
    if e.kind == 'swdef':
        return [('ne', e.cond, {'c': c, 'w': 64}, None) for c in e.val]
    return []


def casts(fn, v):
    """Look through value-preserving casts."""
    while isinstance(v, int):
        i = fn.inst.get(v)
        if i is None or i.op not in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'zext', 'sext', 'trunc', 'addrspacecast'):
            break
        v = i.ops[0]
    return v


def ptr_base(fn, v):
    """(root, const offset or None) of a pointer, through GEPs and casts; root is an operand."""
    off = 0
    while True:
        if isinstance(v, dict) and 'ce' in v:
            if v['ce'] == 'getelementptr':
                off = None if off is None or 'off' not in v else off + v['off']
                v = v['ops'][0]
                continue
            if v['ce'] in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                v = v['ops'][0]
                continue
            return v, off
        if not isinstance(v, int):
            return v, off
        i = fn.inst.get(v)
        if i is None:
            return v, off
        if i.op == 'getelementptr':
            o = i.d.get('off')
            off = None if off is None or o is None else off + o
            v = i.ops[0]
        elif i.op in ('bitcast', 'freeze', 'addrspacecast'):
            v = i.ops[0]
        else:
            return v, off


class Program:
    def __init__(self, text):
        self.fns, self.structs, self.enums = {}, {}, {}
        for line in text.splitlines():
            d = json.loads(line)
            if 'struct' in d:
                self.structs[d['struct']] = d
            elif 'enum' in d:
                self.enums[d['enum']] = d
            else:
                f = Fn(d)
                self.fns[f.name] = f

    def field(self, struct_rx, name):
        """(offset, size) of a field of the first struct whose unhashed name matches."""
        for s, d in self.structs.items():
            if re.fullmatch(struct_rx, s):
                for n, o, z, _ in d['fields']:
                    if n == name:
                        return o, z
        raise env.Broken('no field %s in struct %s' % (name, struct_rx))

    def by_base(self, rx, file=None):
        return [f for f in self.fns.values() if re.fullmatch(rx, unhash(f.base)) and (file is None or short(f.file).endswith(file))]


def load(bcs, args=()):
    import hashlib, os, pickle
    key = hashlib.sha256(('\0'.join(list(bcs) + ['|'] + list(args)) + env.tool()).encode())
    for f in (__file__,):
        key.update(open(f, 'rb').read())
    p = os.path.join(env.BUILD, 'ir-%s.jsonl' % key.hexdigest()[:20])
    if os.path.exists(p):
        return Program(open(p).read())
    out = env.irdump(bcs, args)
    tmp = p + '.%d.tmp' % os.getpid()
    open(tmp, 'wb').write(out)
    os.rename(tmp, p)
    return Program(out.decode('utf8'))
