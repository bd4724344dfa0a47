"""Types that debug info loses: which generated functions return Errno / take Errno&, taken from the
generated C++ (one function signature per line, printed by the pinned generator) and from native
blocks (`static Errno f(`)."""
import os, re
from . import env


def signatures(tree=None):
    """{function name: {'ret': type, 'args': [(type, name)], 'file': rel, 'line': n}}"""
    root = tree or env.cpp_tree() + '/gen'
    out = {}
    for f in env.walk(root, ('.fu.cpp',)):
        rel = os.path.relpath(f, root)
        if 'unity' in rel:
            continue
        txt = open(f, errors='replace').read()
        for m in re.finditer(r'^(?:template <[^\n]*>\n)?((?:static |inline |\[\[noreturn\]\] |extern "C" )*)([\w:<>,&* ]+?)\s+(\w+)\(([^;{}]*?)\)\s*(?:noexcept)?\s*\n?\{', txt, re.M):
            mods, ret, name, args = m.groups()
            if ret in ('else', 'return', 'new'):
                continue
            al = []
            for a in split_args(args):
                mm = re.match(r'(.*?)(\w+)$', a.strip(), re.S)
                if mm:
                    al.append((mm.group(1).strip(), mm.group(2)))
            out[name] = {'ret': ret.strip(), 'args': al, 'file': rel, 'line': txt.count('\n', 0, m.start()) + 1}
    return out


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def errno_type(t):
    return re.fullmatch(r'(const )?Errno(_\w{4})?', t.strip()) is not None


def errno_ref(t):
    return re.fullmatch(r'Errno(_\w{4})?\s*&', t.strip()) is not None
