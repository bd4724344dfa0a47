"""Deferred blocks (include/fu/defer.h): every path out of a scope, returns, exceptions and recovery alike, with an
arbitrary number U of exceptions already in flight when the scope is entered.  std::uncaught_exceptions() is U plus the
number of exceptions the path itself is unwinding."""
import os
from . import env, ir, trace
from .trace import add, sub

SRC = env.VERIF + '/harness/rt_defer.cpp'
U = ('U',)


class Tracer(trace.Tracer):
    def level(self, t):
        return t.n.get('unwinding', 0)

    def call(self, t, i):
        n = i.cdem or i.callee or ''
        if i.callee == '__cxa_begin_catch':
            t.n['unwinding'] = self.level(t) - 1
        if n.startswith('std::uncaught_exceptions'):
            t.env[i.id] = add(U, self.level(t))
            return
        if n.startswith('std::uncaught_exception('):
            t.env[i.id] = 1 if self.level(t) > 0 else ('not', ('cmp', 'eq', U, 0))
            return
        if i.callee == '__cxa_rethrow':
            t.n['unwinding'] = self.level(t) + 1
        super().call(t, i)
        if i.op == 'call' and i.callee == 'step':            # nothing to clean up: the exception leaves the function
            self.finish(t.fork(), 'exc')
        if i.callee not in (None, 'step', 'done', 'flag', '__gxx_personality_v0') and not (i.callee or '').startswith(('llvm.', '__cxa', '_ZSt', '__clang')):
            t.n['opaque'] = i

    def term(self, t, b, i):
        if i.op == 'invoke':
            self.call(t, i)
            u = t.fork()
            if i.callee != '__cxa_rethrow':
                u.n['unwinding'] = self.level(t) + 1
            if i.callee != '__cxa_end_catch':               # exception objects do not throw on destruction
                self.stack.append((u, i.d['unw'], b))
            if not i.noret:
                self.stack.append((t, i.d['to'], b))
            return
        return super().term(t, b, i)

    def inst(self, t, i):
        if i.op in ('landingpad', 'insertvalue', 'extractvalue'):
            t.env[i.id] = ('ssa', i.id)
            return
        if i.op in ('trunc', 'sext', 'zext') and self.w(i.ty) >= 8:     # a count of exceptions fits any integer
            a = self.v(t, i.ops[0])
            if isinstance(a, tuple) and set(trace.poly(a)) <= {(), (U,)}:
                t.env[i.id] = a
                return
        return super().inst(t, i)

    def cmp(self, pred, a, b):
        d = trace.poly(sub(a, b))
        if set(d) <= {(), (U,)}:
            k, c = d.get((U,), 0), d.get((), 0)             # k U + c against 0, U >= 0
            if k < 0:
                k, c, pred = -k, -c, ir.SWAP[pred]
            if not k or c > 0:
                return trace.Tracer.cmp(self, pred.replace('u', 's'), c, 0)
        return trace.Tracer.cmp(self, pred, a, b)


# what each scope of the harness must do: a list of (pattern of completed steps and exit) decided by a tiny reference
def reference(name):
    """all behaviours as event tuples ending in 'ret' or 'exc'; the steps may throw, flag() is arbitrary"""
    out = set()

    def scope(seq, ev, cont):
        """seq: ('step', k) | ('defer', kind, j) | ('flag',) | ('scope', seq) | ('try', seq, handler)"""
        def leave(ev, ds, exc):
            for kind, j in reversed(ds):
                if kind == 'always' or (kind == 'err') == exc:
                    ev = ev + (('done', j),)
            return ev

        def go(k, ev, ds):
            if k == len(seq):
                return cont(leave(ev, ds, False), None)
            s = seq[k]
            if s[0] == 'step':
                e = ev + (('step', s[1]),)
                cont(leave(e, ds, True), 'exc')
                return go(k + 1, e, ds)
            if s[0] == 'defer':
                return go(k + 1, ev, ds + [(s[1], s[2])])
            if s[0] == 'flag':
                cont(leave(ev, ds, False), 'return')
                return go(k + 1, ev, ds)
            if s[0] == 'scope':
                return scope(s[1], ev, lambda e, x: cont(leave(e, ds, x == 'exc'), x) if x else go(k + 1, e, ds))
            if s[0] == 'try':
                def after(e, x):
                    if x == 'exc':
                        return scope(s[2], e, lambda f, y: cont(leave(f, ds, y == 'exc'), y) if y else go(k + 1, f, ds))
                    return go(k + 1, e, ds)
                return scope(s[1], ev, after)
        go(0, ev, [])

    scope(SCOPES[name], (), lambda e, x: out.add(e + ('exc' if x == 'exc' else 'ret',)))
    return out


def early(k):
    return [('step', 0), ('defer', k, 1), ('step', 1), ('flag',), ('defer', k, 2), ('step', 2)]


SCOPES = {
    'always': early('always'), 'if_err': early('err'), 'if_ok': early('ok'),
    'mixed': [('defer', 'always', 1), ('step', 1), ('defer', 'err', 2), ('step', 2), ('defer', 'ok', 3), ('step', 3),
              ('scope', [('defer', 'err', 4), ('defer', 'ok', 5), ('defer', 'always', 6), ('step', 6)]), ('step', 7)],
    'late': [('defer', 'always', 11), ('defer', 'err', 12), ('defer', 'ok', 13), ('step', 3)],
    'restore': [('defer', 'always', 'place'), ('step', 1)],
    'recover': [('defer', 'err', 1), ('defer', 'ok', 2),
                ('try', [('defer', 'err', 3), ('defer', 'ok', 4), ('step', 4)], [('defer', 'err', 5), ('defer', 'ok', 6), ('step', 6)]), ('step', 7)],
}
MACRO = {'always': 'fu_DEFER', 'if_err': 'fu_DEFER_IF_ERR', 'if_ok': 'fu_DEFER_IF_OK'}


def events(t, f):
    ev = []
    for e in t.ev:
        if e.k == 'call' and e.a in ('step', 'done'):
            ev.append((e.a, e.v[0]))
        elif e.k == 'store' and isinstance(e.a, tuple) and e.a[0] == 'arg' and not isinstance(e.v, int):
            ev.append(('done', 'place' if t.n.get('place0') in (None, e.v) and e.v[0] == 'ld' and t.n.get(('at', e.v[1])) == e.a else 'elsewhere'))
    return tuple(ev) + ({'ret': 'ret', 'exc': 'exc'}.get(t.end, t.end),)


def run(ctx):
    ctx.rule('on every path out of a scope each deferred block runs as often as its kind says: always once, on errors only, on success only')
    ctx.rule('blocks run in reverse order of their declaration, only those whose declaration was reached')
    ctx.rule('whether a scope fails does not depend on exceptions in flight before it was entered')
    ctx.rule('a block sees the variables of the scope as they are when it runs, and can change them')
    bc = env.native_bc(SRC, ())
    prog = ir.load([bc], ('-inline', '-root', '^(%s)$' % '|'.join(SCOPES), '-passes', 'function(sroa,early-cse,simplifycfg)'))
    fs = {f.name.replace('.inl', ''): f for f in prog.fns.values() if f.blocks}
    for name in SCOPES:
        f = fs.get(name)
        if f is None:
            raise env.Broken('no harness function ' + name)
        want = reference(name)
        ctx.fn(MACRO.get(name, 'fu_DEFER') + ' in harness scope ' + name)
        try:
            ts = Tracer(f, None, r'^flag$').run()
        except OverflowError:
            ctx.count('undecided')
            continue
        got = {}
        for t in ts:
            ctx.count('paths')
            if t.end == 'trap':
                continue                   # std::terminate from a throwing deferred block
            alien = t.n.get('opaque') is not None or t.end not in ('ret', 'exc')
            got.setdefault(events(t, f), []).append((t, alien))
        for e in sorted(got, key=repr):
            t, alien = got[e][0]
            if e in want:
                ctx.count('paths_ok')
                continue
            if alien:
                ctx.count('undecided')
                continue
            last = next((x.i for x in reversed(t.ev) if x.k == 'call'), None)
            exp = ' or '.join(sorted({dones(w) for w in want if steps(w) == steps(e) and w[-1] == e[-1]})) or 'no such way out'
            cond = ', '.join(('' if v else 'not ') + trace.show(k) for k, v in sorted(t.facts.items(), key=repr))
            ctx.violation('include/fu/defer.h:%s:%s' % (name, '.'.join('%s%s' % x if isinstance(x, tuple) else x for x in e)),
                          '%s: in a scope that %s after %s, the deferred blocks that run are %s; expected: %s%s' % (
                              last.where() if last is not None else 'include/fu/defer.h', 'throws' if e[-1] == 'exc' else 'ends normally',
                              steps(e), dones(e), exp, ' (when %s)' % cond if cond else ''))
        alien = any(a for l in got.values() for _, a in l)
        for w in sorted(want - set(got), key=repr):
            if alien or any(e not in want for e in got):
                ctx.count('undecided')     # some other path behaves differently, reported above
            else:
                ctx.violation('include/fu/defer.h:%s:missing:%s' % (name, steps(w)), 'include/fu/defer.h: a scope that %s after %s does not run the deferred blocks %s and go on'
                              % ('throws' if w[-1] == 'exc' else 'ends normally', steps(w), dones(w)))
    ctx.need('paths_ok', 20)


def steps(e):
    return 'step ' + ','.join(str(x[1]) for x in e[:-1] if x[0] == 'step') if any(x[0] == 'step' for x in e[:-1]) else 'no step'


def dones(e):
    return '[' + ' '.join(str(x[1]) for x in e[:-1] if x[0] == 'done') + ']'
