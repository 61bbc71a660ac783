"""Compiles the repository's current sources and one harness file into a test binary, in a scratch directory."""
import os, subprocess, glob, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=c++11', '-g', '-O1', '-w', '-fno-omit-frame-pointer', '-fsanitize=address',
         '-fsanitize=integer-divide-by-zero,shift-exponent,return,unreachable,bounds', '-fno-sanitize-recover=all',
         '-DTYPELIB_HARDCODED_PLUGIN_PATH="/nonexistent"']


def pkg(what):
    p = subprocess.run(['pkg-config', what, 'libxml-2.0'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.stdout.decode().split()


def sources(repo, extra):
    s = sorted(glob.glob(repo + '/typelib/*.cc')) + sorted(glob.glob(repo + '/typelib/utilmm/*.cc')) + \
        sorted(glob.glob(repo + '/typelib/utilmm/singleton/*.cc'))
    s += [repo + '/lang/csupport/' + f for f in sorted(os.listdir(repo + '/lang/csupport')) if f.endswith('.cc') and f != 'plugin.cc']
    for d in extra:
        s += [x for x in sorted(glob.glob(repo + '/' + d + '/*.cc')) if os.path.basename(x) != 'register.cc']
    return s


def build(repo, work, harness, extra=(), jobs=8, need_gen=True):
    if harness.endswith('.rb'):
        return build_ruby(repo, work, harness, jobs)
    os.makedirs(work + '/o', exist_ok=True)
    inc = ['-I' + repo, '-I' + repo + '/typelib', '-I' + VERIF + '/harness'] + pkg('--cflags')
    src = sources(repo, extra)
    h = [VERIF + '/harness/main.cc', VERIF + '/harness/' + harness] + ([VERIF + '/harness/gen.cc'] if need_gen else [])
    allf = h + src
    objs, errs = [], []

    def one(f):
        o = work + '/o/' + f.strip('/').replace('/', '_') + '.o'
        p = subprocess.run(['g++'] + FLAGS + inc + ['-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return f, o, p.returncode, p.stdout.decode(errors='replace')

    with cf.ThreadPoolExecutor(jobs) as ex:
        for f, o, rc, out in ex.map(one, allf):
            if rc:
                errs.append('%s:\n%s' % (f, out[:4000]))
            objs.append(o)
    if errs:
        return None, '\n'.join(errs)
    exe = work + '/harness'
    libs = ['-lboost_filesystem', '-lboost_system', '-lboost_thread', '-lpthread', '-ldl'] + pkg('--libs')
    p = subprocess.run(['g++'] + FLAGS + objs + ['-o', exe] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return None, p.stdout.decode(errors='replace')[:4000]
    return exe, ''


WRAPPER = """#!/bin/sh
export TYPELIB_PLUGIN_PATH=%(work)s/plugins
export LD_PRELOAD="%(preload)s"
export ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1
exec ruby -W0 -I %(verif)s/harness/ruby/shim -I %(work)s -I %(repo)s/bindings/ruby/lib %(verif)s/harness/%(harness)s "$@"
"""


def build_ruby(repo, work, harness, jobs=8):
    """The libraries, the plugins and the Ruby extension, each a shared library, and a script that runs the harness on them."""
    os.makedirs(work + '/o', exist_ok=True)
    os.makedirs(work + '/plugins', exist_ok=True)
    cfg = subprocess.run(['ruby', '-e', "c = RbConfig::CONFIG; puts c['rubyhdrdir'], c['rubyarchhdrdir'], c['RUBY_SO_NAME']"], stdout=subprocess.PIPE).stdout.decode().split()
    inc = ['-I' + repo, '-I' + repo + '/typelib', '-I' + repo + '/bindings/ruby/ext', '-I' + cfg[0], '-I' + cfg[1]] + pkg('--cflags')
    libs = ['-lboost_filesystem', '-lboost_system', '-lboost_thread', '-lpthread', '-ldl'] + pkg('--libs')
    link = ['-L' + work, '-Wl,-rpath,' + work, '-Wl,--allow-multiple-definition']
    groups = [('libtypeLib.so', ['typelib', 'typelib/utilmm', 'typelib/utilmm/singleton'], libs),
              ('libtypeLang_cSupport.so', ['lang/csupport'], link + ['-ltypeLib']),
              ('plugins/libtypeLang_tlb.so', ['lang/tlb'], link + ['-ltypeLib'] + libs),
              ('typelib_ruby.so', ['bindings/ruby/ext'], link + ['-ltypeLib', '-ltypeLang_cSupport'] + libs + ['-l' + cfg[2]])]
    flags = ['-std=c++11', '-g', '-O1', '-w', '-fPIC', '-fno-omit-frame-pointer', '-fsanitize=address', '-DTYPELIB_HARDCODED_PLUGIN_PATH="/nonexistent"']
    todo = [(g, f) for g, (_, ds, _) in enumerate(groups) for d in ds for f in sorted(glob.glob(repo + '/' + d + '/*.cc'))]
    objs, errs = [[] for _ in groups], []

    def one(x):
        g, f = x
        o = work + '/o/' + f.strip('/').replace('/', '_') + '.o'
        p = subprocess.run(['g++'] + flags + inc + ['-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return g, f, o, p.returncode, p.stdout.decode(errors='replace')

    with cf.ThreadPoolExecutor(jobs) as ex:
        for g, f, o, rc, out in ex.map(one, todo):
            if rc:
                errs.append('%s:\n%s' % (f, out[:4000]))
            objs[g].append(o)
    if errs:
        return None, '\n'.join(errs)
    for g, (so, _, l) in enumerate(groups):
        p = subprocess.run(['g++', '-shared', '-fsanitize=address'] + objs[g] + ['-o', work + '/' + so] + l, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return None, p.stdout.decode(errors='replace')[:4000]
    shutil.copy(work + '/libtypeLang_cSupport.so', work + '/plugins/')
    pre = ' '.join(subprocess.run(['gcc', '-print-file-name=' + x], stdout=subprocess.PIPE).stdout.decode().strip() for x in ('libasan.so', 'libstdc++.so'))
    exe = work + '/harness'
    with open(exe, 'w') as f:
        f.write(WRAPPER % dict(work=work, preload=pre, verif=VERIF, repo=repo, harness=harness))
    os.chmod(exe, 0o755)
    return exe, ''


if __name__ == '__main__':
    import sys
    if sys.argv[1].endswith('.rb'):
        print(*build_ruby(os.environ.get('VERIF_REPO', '/repo'), sys.argv[2], sys.argv[1]))
        sys.exit(0)
    e, o = build(os.environ.get('VERIF_REPO', '/repo'), sys.argv[2], sys.argv[1], tuple(sys.argv[3:]))
    print(e, o)
