"""Runs the container analysis (tools/vecabs) on the current include/ and caches its result."""
import json, os
from . import env

SPEC = os.path.join(env.VERIF, 'harness/rt_vec.spec')
SRC = os.path.join(env.VERIF, 'harness/rt_vec.cpp')


def results(defs=('-DNDEBUG',), only='', spec=SPEC, src=SRC):
    exe = env.vecabs()
    bc = env.native_bc(src, tuple(defs))
    key = env.hash_files([bc, spec, exe], only + ' '.join(defs))
    out = os.path.join(env.BUILD, 'va-%s.json' % key)
    if not os.path.exists(out):
        with env.Lock('va'):
            if not os.path.exists(out):
                t = '%s.%d' % (out, os.getpid())
                env.irdump([bc], ['-inline', '-root', 'op__', '-keep', 'Obj::', '-keep', 'Uniq::', '-passes',
                                  'function(sroa,early-cse,simplifycfg)', '-bc', t + '.bc'])
                env.sh([exe, t + '.bc', spec, '-j', str(env.JOBS), '-o', t + '.out', '-maxsec', '40', '-deadline', '330'] + (['-only', only] if only else []), timeout=850)
                os.unlink(t + '.bc')
                os.rename(t + '.out', out)
    return [json.loads(l) for l in open(out)]


def apply(ctx, classes, runs, what):
    """Report the violations of the given classes and account for what was analysed."""
    for defs, only, tag in runs:
        rs = results(defs, only)
        und = 0
        for r in rs:
            ctx.fn('%s%s' % (r['fn'], tag))
            ctx.count('contract_cases' + tag, r['cases'])
            ctx.count('abstract_paths' + tag, r['paths'])
            ctx.count('abstract_states' + tag, r['states'])
            und += sum(r['undecided'].values())
            if und and r['undecided']:
                ctx.sample('undecided in %s: %s' % (r['fn'], ', '.join(r['undecided'])))
            for k, t in r['viol'].items():
                op, cls, rest = k.split(':', 2)
                if cls in classes:
                    ctx.violation('%s %s %s' % (op, cls, rest), '%s (%s): %s' % (r['fn'], what, t))
        ctx.count('undecided_paths' + tag, und)
        for r in rs[:400:40]:
            ctx.sample('%s: %d cases, %d paths' % (r['fn'], r['cases'], r['paths']))
