"""Build environment: the irdump tool, the pinned fu->C++ translator, and LLVM bitcode of the
tree under analysis.  Everything lands in a content-addressed cache under .build/ (git-ignored);
a missing cache is rebuilt, so a check never depends on an earlier run."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FU_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
BUILD = os.environ.get('FU_VERIF_BUILD', os.path.join(VERIF, '.build'))
JOBS = max(2, os.cpu_count() or 4)


class Broken(Exception):
    """The analysis itself cannot answer (missing anchor, untranslatable tree...): error exit."""


def sh(cmd, cwd='/', env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode:
        raise Broken('command failed (%d): %s\n%s' % (p.returncode, ' '.join(map(str, cmd))[:400],
                     (p.stderr or p.stdout).decode('utf8', 'replace')[-3000:]))
    return p.stdout


def hash_files(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def walk(root, exts):
    out = []
    for d, dn, fn in os.walk(root):
        dn.sort()
        out += [os.path.join(d, f) for f in fn if f.endswith(exts)]
    return out


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def publish(tmp, dst):
    if os.path.isdir(dst):
        shutil.rmtree(tmp)
        return
    os.rename(tmp, dst)


def scratch(prefix):
    os.makedirs(BUILD, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix + '.', dir=BUILD)


def tool():
    """Path of the compiled irdump."""
    src = os.path.join(VERIF, 'tools/irdump.cpp')
    dst = os.path.join(BUILD, 'irdump-' + hash_files([src]))
    exe = os.path.join(dst, 'irdump')
    if os.path.exists(exe):
        return exe
    with Lock('irdump'):
        if os.path.exists(exe):
            return exe
        tmp = scratch('irdump')
        flags = sh([LLVM + 'llvm-config', '--cxxflags', '--ldflags']).decode().split()
        flags = [f for f in flags if f != '-DNDEBUG' and not f.startswith('-std')]
        sh([LLVM + 'clang++', '-O1', '-std=c++17', src, '-o', tmp + '/irdump'] + flags + ['-lLLVM-18'])
        publish(tmp, dst)
    return exe


def vecabs():
    """Path of the compiled container analyser."""
    srcs = [os.path.join(VERIF, 'tools', f) for f in ('vecabs.cpp', 'vecspec.h', 'lin.h')]
    dst = os.path.join(BUILD, 'vecabs-' + hash_files(srcs))
    exe = os.path.join(dst, 'vecabs')
    if os.path.exists(exe):
        return exe
    with Lock('vecabs'):
        if os.path.exists(exe):
            return exe
        tmp = scratch('vecabs')
        flags = sh([LLVM + 'llvm-config', '--cxxflags', '--ldflags']).decode().split()
        flags = [f for f in flags if f not in ('-DNDEBUG', '-fno-exceptions') and not f.startswith('-std')]
        sh([LLVM + 'clang++', '-O2', '-w', '-std=c++17', srcs[0], '-o', tmp + '/vecabs'] + flags + ['-fexceptions', '-lLLVM-18'])
        publish(tmp, dst)
    return exe


def pin():
    """Path of the pinned translator (the fu compiler of the base commit)."""
    root = os.path.join(VERIF, 'pin')
    files = walk(root, ('.cpp', '.h', '.hpp'))
    dst = os.path.join(BUILD, 'pin-' + hash_files(files))
    exe = os.path.join(dst, 'fu-pin')
    if os.path.exists(exe):
        return exe
    with Lock('pin'):
        if os.path.exists(exe):
            return exe
        tmp = scratch('pin')
        mods = re.findall(r'^#include "(.*)"', open(root + '/src/cli.fu.unity.cpp').read(), re.M)
        mods = sorted(mods, key=lambda m: -os.path.getsize(os.path.join(root, 'src', m)))
        jobs = [(os.path.join(root, 'src', m), '-O0' if m in ('solver.fu.cpp', 'tests.fu.cpp') else '-O1') for m in mods]
        jobs.append((root + '/include/fu/_fulib.cpp', '-O1'))

        def one(i):
            src, opt = jobs[i]
            o = '%s/%d.o' % (tmp, i)
            sh([LLVM + 'clang++', '--std=c++17', opt, '-w', '-I', root + '/include', '-c', src, '-o', o])
            return o
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(one, range(len(jobs))))
        sh([LLVM + 'clang++', '-o', tmp + '/fu-pin'] + objs + ['-ldl', '-pthread'])
        for o in objs:
            os.unlink(o)
        publish(tmp, dst)
    return exe


def repo_files():
    fs = walk(REPO + '/src', ('.fu',)) + walk(REPO + '/lib', ('.fu',)) + \
        walk(REPO + '/include', ('.h', '.hpp', '.cpp', '.c'))
    return fs


def tree_key():
    return hash_files(repo_files(), REPO)


def harness_files():
    return walk(os.path.join(VERIF, 'harness'), ('.fu', '.cpp', '.h'))


def cpp_tree():
    """Directory with the analysed tree: src/ lib/ include/ plus gen/ = generated C++ of every
    module reachable from src/cli.fu and from harness/*.fu."""
    exe = pin()
    key = hash_files(repo_files() + harness_files() + [exe], REPO)
    dst = os.path.join(BUILD, 'tree-' + key)
    if os.path.isdir(dst):
        return dst
    with Lock('tree'):
        if os.path.isdir(dst):
            return dst
        tmp = scratch('tree')
        os.makedirs(tmp + '/t')
        for d in ('src', 'lib', 'include'):
            shutil.copytree(os.path.join(REPO, d), os.path.join(tmp, 't', d),
                            ignore=shutil.ignore_patterns('*.fu.cpp', '*.o') if d != 'include' else None)
        os.makedirs(tmp + '/t/zz')
        roots = ['src/cli.fu']
        for f in harness_files():
            if f.endswith('.fu'):
                shutil.copy(f, tmp + '/t/zz/')
                roots.append('zz/' + os.path.basename(f))

        def gen(i):
            home = '%s/home%d' % (tmp, i)
            for d in ('cpp', 'obj', 'bin', 'out', 'tmp'):
                os.makedirs(home + '/.fu/cache/' + d)
            env = dict(os.environ, HOME=home, FU_ROOT=tmp + '/t/', fu_NUM_WORKER_THREADS='0', TMPDIR=home)
            out = 'gen%d' % i
            for d in ('src', 'lib/ev', 'zz'):       # the pinned --cpp writer wants them to exist
                os.makedirs('%s/t/%s/%s' % (tmp, out, d), exist_ok=True)
            sh([exe, '--cpp', out, roots[i]], cwd=tmp + '/t', env=env)
            return out
        with ThreadPoolExecutor(JOBS) as ex:
            outs = list(ex.map(gen, range(len(roots))))
        # module name -> generated file; cli.fu first, then what only the harnesses reach
        os.makedirs(tmp + '/t/gen')
        for o in outs:
            base = os.path.join(tmp, 't', o)
            for f in walk(base, ('.fu.cpp',)):
                rel = os.path.relpath(f, base)
                if rel.startswith('zz/') or not os.path.exists(os.path.join(tmp, 't/gen', rel)):
                    os.makedirs(os.path.dirname(os.path.join(tmp, 't/gen', rel)), exist_ok=True)
                    shutil.copy(f, os.path.join(tmp, 't/gen', rel))
        if not os.path.exists(tmp + '/t/gen/src/cli.fu.cpp'):
            raise Broken('translator produced no src/cli.fu.cpp')
        for o in outs:
            shutil.rmtree(os.path.join(tmp, 't', o))
        publish(tmp + '/t', dst)
        shutil.rmtree(tmp)
    return dst


CFLAGS = ['--std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-fno-discard-value-names']


def bitcode(src, defs=(), incs=(), tag=''):
    """Compile one C++ file (absolute path) against the analysed include/ to bitcode."""
    t = cpp_tree()
    key = hash_files([src], t + ' '.join(defs) + ' '.join(incs) + tag)
    dst = os.path.join(BUILD, 'bc-' + key + '.bc')
    if os.path.exists(dst):
        return dst
    tmp = dst + '.%d.tmp' % os.getpid()
    sh([LLVM + 'clang++'] + CFLAGS + ['-I', t + '/include', '-I', VERIF + '/harness'] + ['-I' + i for i in incs] +
       list(defs) + ['-emit-llvm', '-c', src, '-o', tmp])
    os.rename(tmp, dst)
    return dst


def module_bc(*mods, defs=()):
    """Bitcode of generated modules, e.g. 'lib/file', 'src/build' (all if none given)."""
    t = cpp_tree()
    if not mods:
        mods = [os.path.relpath(f, t + '/gen')[:-len('.fu.cpp')] for f in walk(t + '/gen', ('.fu.cpp',))]
        mods = [m for m in mods if not m.endswith('.unity') and not f_is_unity(m)]
    srcs = []
    for m in mods:
        p = os.path.join(t, 'gen', m + '.fu.cpp')
        if not os.path.exists(p):
            raise Broken('no generated module for %s.fu' % m)
        srcs.append(p)
    with ThreadPoolExecutor(JOBS) as ex:
        return dict(zip(mods, ex.map(lambda s: bitcode(s, defs), srcs)))


RAW = ('-Xclang', '-disable-llvm-passes')        # keep always-inline runtime calls as calls


def native_bc(src, defs=()):
    """Bitcode of a C++ file compiled directly against the repository's include/ (no translation)."""
    inc = walk(REPO + '/include', ('.h', '.hpp', '.cpp', '.c'))
    key = hash_files(inc + [src], REPO + ' '.join(defs))
    dst = os.path.join(BUILD, 'nbc-' + key + '.bc')
    if not os.path.exists(dst):
        os.makedirs(BUILD, exist_ok=True)
        tmp = dst + '.%d.tmp' % os.getpid()
        sh([LLVM + 'clang++'] + CFLAGS + ['-I', REPO + '/include', '-I', VERIF + '/harness'] + list(defs) +
           ['-emit-llvm', '-c', src, '-o', tmp])
        os.rename(tmp, dst)
    return dst


def snapshot_bc(*mods, defs=()):
    """Bitcode of committed bootstrap modules (lib/X.fu.cpp, src/X.fu.cpp)."""
    srcs = [os.path.join(REPO, m + '.fu.cpp') for m in mods]
    for p in srcs:
        if not os.path.exists(p):
            raise Broken('no bootstrap module ' + p)
    with ThreadPoolExecutor(JOBS) as ex:
        return dict(zip(mods, ex.map(lambda s: native_bc(s, ("-DTODO_FIX_REMOVE_copying_push",) + tuple(defs)), srcs)))


def f_is_unity(m):
    return m.endswith('unity.cpp') or '.unity' in m


def irdump(bcs, args=()):
    exe = tool()
    out = sh([exe] + list(args) + list(bcs), timeout=800)
    return out
