"""Check runner: collects rule instances and violations, applies the known-findings file, writes
evidence, prints the verdict lines."""
import json, os, re, sys, time, traceback
from . import env

KNOWN = os.path.join(env.VERIF, 'known_findings.txt')


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.seed = pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1)
        self.viol = {}            # key -> text
        self.counts = {}
        self.samples = []
        self.functions = set()
        self.rules = []
        self.assumptions = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, text, cap=12):
        if len(self.samples) < cap and text not in self.samples:
            self.samples.append(text)

    def fn(self, name):
        self.functions.add(name)

    def violation(self, key, text):
        """key: stable identification of the construct (file, function, callee...)."""
        key = re.sub(r'\s+', ' ', key)
        self.viol.setdefault(key, text)

    def need(self, what, minimum):
        """A rule that matched fewer instances than confirmed by hand is broken."""
        if self.counts.get(what, 0) < minimum:
            raise env.Broken('rule instance count for "%s" is %d, expected at least %d' %
                             (what, self.counts.get(what, 0), minimum))


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\w+) key=\[(.*?)\] (.*)', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main(pid, run, level='other', explanation=''):
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[1:]:
        if a.startswith('--tier='):
            tier = a.split('=')[1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    ctx = Ctx(pid, tier)
    broken = None
    try:
        run(ctx)
    except env.Broken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    kn = known(pid)
    new = {k: v for k, v in ctx.viol.items() if k not in kn}
    evd = os.path.join(env.VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    rep = os.path.join(evd, '%s.violations.txt' % pid)
    with open(rep, 'w') as f:
        for k, v in sorted(ctx.viol.items()):
            f.write('%s[%s]\n  %s\n\n' % ('(known) ' if k in kn else '', k, v.replace('\n', '\n  ')))
    ev = {'property': pid, 'tier': tier, 'seed': ctx.seed, 'level': level,
          'coverage': dict({'explanation': explanation, 'rules': ctx.rules,
                            'functions_analysed': len(ctx.functions),
                            'samples': ctx.samples}, **{re.sub(r'\W+', '_', k): v for k, v in ctx.counts.items()}),
          'assumptions': ctx.assumptions, 'violations': len(new), 'wall_s': round(time.time() - t0, 2)}
    if broken:
        ev['coverage']['broken'] = broken[-2000:]
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    for k, v in sorted(ctx.viol.items()):
        if k in kn:
            print('KNOWN-FINDING: property=%s [%s] %s' % (pid, k, kn[k]))
    if new:
        for k, v in sorted(new.items()):
            print('[%s] %s' % (k, v))
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rep, env.VERIF)))
        if broken:
            print('note: analysis also incomplete: %s' % broken, file=sys.stderr)
        sys.exit(1)
    if broken:
        print('%s: analysis broken: %s' % (pid, broken), file=sys.stderr)
        sys.exit(3)
    print('%s: held. %d functions; %s (%.1f s)' % (pid, len(ctx.functions),
          ', '.join('%s=%d' % kv for kv in sorted(ctx.counts.items())), time.time() - t0))
    sys.exit(0)
