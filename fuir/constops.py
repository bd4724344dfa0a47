"""Operands a vector operation takes by const reference are never written, not even their header:
several threads may use the same vector at once.  Pointer roots are traced through gep/phi/select."""
import re
from . import env, ir


def roots(fn, v, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(v, int) or v in seen:
        return set()
    seen.add(v)
    i = fn.inst.get(v)
    if i is None:
        return {v}
    if i.op in ('getelementptr', 'bitcast', 'freeze', 'addrspacecast'):
        return roots(fn, i.ops[0], seen)
    if i.op == 'phi':
        return set().union(*[roots(fn, x, seen) for x in i.ops]) if i.ops else set()
    if i.op == 'select':
        return roots(fn, i.ops[1], seen) | roots(fn, i.ops[2], seen)
    return {v}


def header_mark(fn, i):
    """store of the capacity word (offset 12) computed from that same word and constants only"""
    r, off = ir_ptr(fn, i.ops[1])
    if off != 12:
        return False
    work, seen, loads = [i.ops[0]], set(), 0
    while work:
        v = work.pop()
        if not isinstance(v, int) or v in seen:
            continue
        seen.add(v)
        x = fn.inst.get(v)
        if x is None:
            return False
        if x.op == 'load':
            if ir_ptr(fn, x.ops[0]) != (r, 12):
                return False
            loads += 1
        elif x.op in ('or', 'and', 'shl', 'lshr', 'xor', 'add', 'zext', 'trunc', 'sext'):
            work += x.ops
        elif x.op == 'select':
            work += x.ops[1:]
        elif x.op == 'phi':
            work += x.ops
        elif x.op == 'call' and re.match(r'llvm\.fsh[lr]', x.callee or ''):
            work += x.ops[:2]
        else:
            return False
    return loads > 0


def ir_ptr(fn, v):
    off = 0
    while isinstance(v, int) and v in fn.inst:
        i = fn.inst[v]
        if i.op == 'getelementptr':
            o = i.d.get('off')
            if o is None:
                return v, None
            off += o
        elif i.op not in ('bitcast', 'freeze', 'addrspacecast'):
            return v, off
        v = i.ops[0]
    return v, off


def split_args(sig):
    m = re.search(r'op__\w+\((.*)\)', sig)
    out, depth, cur = [], 0, ''
    for c in m.group(1) if m else '':
        depth += c in '<(' 
        depth -= c in '>)'
        if c == ',' and not depth:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
    return out + [cur.strip()] if cur else out


def run(ctx, src):
    bc = env.native_bc(src, ('-DNDEBUG',))
    prog = ir.load([bc], ('-inline', '-root', 'op__', '-keep', 'Obj::', '-keep', 'Uniq::', '-passes', 'function(sroa,early-cse,simplifycfg)'))
    for f in prog.fns.values():
        m = re.search(r'op__(\w+?)__(\w+)\(', f.dem)
        if not m:
            continue
        args = split_args(f.dem)
        const = {f.argids[k] for k, a in enumerate(args) if k < len(f.argids) and re.search(r'const&$', a) and 'item' not in a}
        if not const:
            continue
        ctx.count('const_operands', len(const))
        ctx.fn('%s__%s' % (m.group(1), m.group(2)))
        for i in f.insts():
            if i.op == 'store':
                p, at = i.ops[1], i.d.get('atomic')
            elif i.op in ('call', 'invoke') and i.callee and re.match(r'llvm\.mem(cpy|move|set)', i.callee):
                p, at = i.ops[0], None
            else:
                continue
            if roots(f, p) & const:
                ctx.count('const_writes')
                if i.op == 'store' and header_mark(f, i):
                    ctx.violation('const operand header marked shared', '%s: %s stores the shared mark into an operand it takes by const reference%s; another thread copying the same vector at that moment races with it' % (i.where(), f.dem, ' (atomically)' if at else ''))
                    continue
                ctx.violation('%s writes its const operand' % m.group(2), '%s: %s stores into an operand it takes by const reference%s; another thread using the same vector at that moment races with it' % (i.where(), f.dem, ' (atomically)' if at else ''))
