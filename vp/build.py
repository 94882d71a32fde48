"""Builds /repo's working tree, out of tree, with toywasm's own CMake files."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import threading

from .common import REPO, VERIF, Inconclusive

BUILD = os.path.join(VERIF, '.build')

FEATURES = '''-DTOYWASM_ENABLE_WASM_EXCEPTION_HANDLING=ON -DTOYWASM_ENABLE_WASM_EXTENDED_CONST=ON
-DTOYWASM_ENABLE_WASM_MULTI_MEMORY=ON -DTOYWASM_ENABLE_WASM_TAILCALL=ON -DTOYWASM_ENABLE_WASM_THREADS=ON
-DTOYWASM_ENABLE_WASI_THREADS=ON -DTOYWASM_ENABLE_WASM_CUSTOM_PAGE_SIZES=ON -DTOYWASM_ENABLE_DYLD=ON
-DTOYWASM_ENABLE_DYLD_DLFCN=ON -DTOYWASM_EXTRA_CFLAGS=-Wno-error'''.split()

_CLANG = '-DCMAKE_C_COMPILER=/usr/bin/clang-18'
_DBG = ['-DCMAKE_BUILD_TYPE=Debug']
_REL = ['-DCMAKE_BUILD_TYPE=Release', '-DUSE_IPO=OFF']
_SAN = '-fno-sanitize-recover=all -fno-sanitize=nonnull-attribute,implicit-conversion -fno-omit-frame-pointer'

CONFIGS = {
    # assertions, ASan, UBSan (what upstream enables for clang Debug, less well-defined truncations), LSan at exit
    'asan': [_CLANG] + _DBG + [f'-DCMAKE_C_FLAGS_DEBUG=-O1 -g1 {_SAN}', '-DUSE_ASAN=ON', '-DUSE_UBSAN=ON', '-DUSE_LSAN=ON'],
    'rel': [_CLANG] + _REL,
    'tsan': [_CLANG] + _DBG + ['-DCMAKE_C_FLAGS_DEBUG=-O1 -g1 -fno-omit-frame-pointer', '-DUSE_ASAN=OFF', '-DUSE_LSAN=OFF',
                               '-DUSE_UBSAN=OFF', '-DUSE_TSAN=ON'],
    # uninitialized values; every object is instrumented (only libc underneath)
    'msan': [_CLANG] + _DBG + ['-DCMAKE_C_FLAGS_DEBUG=-O1 -g1 -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-memory-param-retval -fno-sanitize-recover=all',
                               '-DUSE_ASAN=OFF', '-DUSE_LSAN=OFF', '-DUSE_UBSAN=OFF'],
    # assertions without sanitizers
    'dbg': [_CLANG] + _DBG + ['-DCMAKE_C_FLAGS_DEBUG=-O1 -g1', '-DUSE_ASAN=OFF', '-DUSE_LSAN=OFF', '-DUSE_UBSAN=OFF'],
}

# tuning options away from their defaults, each at least once, with assertions
# (large cells and exception handling exclude each other)
VARIANTS = {
    'v1': 'TOYWASM_USE_SMALL_CELLS=OFF TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING=OFF',
    'v2': 'TOYWASM_USE_SMALL_CELLS=OFF TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING=OFF TOYWASM_USE_SEPARATE_LOCALS=OFF TOYWASM_USE_LOCALS_CACHE=OFF TOYWASM_JUMP_CACHE2_SIZE=0',
    'v3': 'TOYWASM_USE_SEPARATE_LOCALS=OFF TOYWASM_USE_JUMP_BINARY_SEARCH=OFF',
    'v4': 'TOYWASM_USE_SEPARATE_EXECUTE=OFF',
    'v5': 'TOYWASM_USE_SEPARATE_EXECUTE=OFF TOYWASM_USE_SEPARATE_VALIDATE=ON TOYWASM_USE_SMALL_CELLS=OFF TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING=OFF',
    'v6': 'TOYWASM_USE_SEPARATE_VALIDATE=ON TOYWASM_PROCESS_INSN_WITH_SWITCH=OFF',
    'v7': 'TOYWASM_PROCESS_INSN_WITH_SWITCH=OFF TOYWASM_USE_TAILCALL=OFF TOYWASM_USE_LOCALS_FAST_PATH=OFF TOYWASM_USE_RESULTTYPE_CELLIDX=OFF',
    'v8': 'TOYWASM_USE_LOCALTYPE_CELLIDX=OFF TOYWASM_USE_JUMP_BINARY_SEARCH=OFF TOYWASM_USE_JUMP_CACHE=ON TOYWASM_JUMP_CACHE2_SIZE=0',
    'v9': 'TOYWASM_USE_JUMP_CACHE=ON TOYWASM_JUMP_CACHE2_SIZE=1 TOYWASM_USE_SHORT_ENUMS=OFF TOYWASM_SORT_EXPORTS=OFF TOYWASM_MAINTAIN_EXPR_END=ON',
    'v10': 'TOYWASM_USE_USER_SCHED=ON',
    'v11': 'TOYWASM_PREALLOC_SHARED_MEMORY=ON TOYWASM_ENABLE_HEAP_TRACKING=OFF',
}
# the command with allocations which can be made to fail
OOMWRAP = os.path.join(BUILD, 'oomwrap.o')
CONFIGS['oom'] = CONFIGS['asan'] + [f'-DCMAKE_EXE_LINKER_FLAGS=-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc {OOMWRAP}']
# and with threads which are not the host's
CONFIGS['oomus'] = CONFIGS['oom'] + ['-DTOYWASM_USE_USER_SCHED=ON']
for _k, _v in VARIANTS.items():
    CONFIGS[_k] = [_CLANG] + _DBG + ['-DCMAKE_C_FLAGS_DEBUG=-O1', '-DUSE_ASAN=OFF', '-DUSE_LSAN=OFF', '-DUSE_UBSAN=OFF'] + ['-D' + x for x in _v.split()]


def tree_hash():
    h = hashlib.sha256()
    for d, dirs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        dirs[:] = sorted(x for x in dirs if x not in ('.git', '_build') and not (rel == '.' and x.startswith('build')))
        for f in sorted(files):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, REPO).encode() + b'\0')
            with open(p, 'rb') as fp:
                h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()


def _env():
    e = {k: v for k, v in os.environ.items() if k not in ('CC', 'CXX', 'CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'DESTDIR',
                                                          'CMAKE_TOOLCHAIN_FILE')}
    e.update(PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LC_ALL='C.UTF-8', TZ='UTC',
             CCACHE_DIR=os.path.join(BUILD, 'ccache'), CCACHE_MAXSIZE='1G', CCACHE_SLOPPINESS='pch_defines,time_macros')
    return e


def _run(cmd, log):
    with open(log, 'ab') as f:
        f.write(('$ ' + ' '.join(cmd) + '\n').encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=_env(), stdin=subprocess.DEVNULL, cwd='/')
    if r.returncode != 0:
        with open(log, 'rb') as f:
            tail = f.read()[-6000:].decode('utf-8', 'replace')
        raise Inconclusive(f'build failed: {" ".join(cmd)}\n{tail}')


_hash = None


def _tree():
    global _hash
    if _hash is None:
        _hash = tree_hash()
    return _hash


def build(config, args=None):
    """Returns the install prefix of config, rebuilt if /repo's tree changed."""
    os.makedirs(BUILD, exist_ok=True)
    args = CONFIGS[config] if args is None else args
    d = os.path.join(BUILD, config)
    with open(os.path.join(BUILD, config + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = open(os.path.join(VERIF, 'harness', 'oomwrap.c')).read() if config in ('oom', 'oomus') else ''
        want = hashlib.sha256((_tree() + repr(args) + repr(FEATURES) + src).encode()).hexdigest()
        stamp = os.path.join(d, 'stamp')
        if os.path.exists(stamp) and open(stamp).read() == want:
            return os.path.join(d, 'p')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        log = os.path.join(d, 'log')
        if config in ('oom', 'oomus'):
            _run(['clang-18', '-O1', '-g', '-c', '-o', f'{OOMWRAP}.{config}', os.path.join(VERIF, 'harness', 'oomwrap.c')], log)
            os.rename(f'{OOMWRAP}.{config}', OOMWRAP)
        _run(['cmake', '-S', REPO, '-B', d + '/b', '-G', 'Ninja', '-DCMAKE_C_COMPILER_LAUNCHER=/usr/bin/ccache',
              '-DBUILD_TESTING=OFF', '-DTOYWASM_BUILD_UNITTEST=OFF', '-DCMAKE_INSTALL_PREFIX=' + d + '/p']
             + FEATURES + args, log)
        _run(['ninja', '-C', d + '/b'], log)
        _run(['cmake', '--install', d + '/b'], log)
        with open(stamp, 'w') as f:
            f.write(want)
    return os.path.join(d, 'p')


def build_many(names, extra=None):
    """Build several configurations side by side; returns {name: prefix}."""
    _tree()
    out, errs = {}, []

    def one(n):
        try:
            out[n] = build(n, (extra or {}).get(n))
        except BaseException as e:  # noqa
            errs.append(e)
    ts = [threading.Thread(target=one, args=(n,)) for n in names]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return out


def cli(config):
    return os.path.join(build(config), 'bin', 'toywasm')


def harness(config, name, sources, libs=('core',), cflags=(), ldflags=(), cc='/usr/bin/clang-18'):
    """Build a C program of /verif/harness against an installed config, the
    way the repository's examples are: find_package on the install prefix."""
    prefix = build(config)
    d = os.path.join(BUILD, config, 'h-' + name)
    srcs = [os.path.join(VERIF, 'harness', s) for s in sources]
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(s, 'rb').read())
    for f in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
        if f.endswith('.h'):
            h.update(open(os.path.join(VERIF, 'harness', f), 'rb').read())
    h.update(repr((libs, cflags, ldflags, CONFIGS.get(config))).encode())
    with open(os.path.join(BUILD, config + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(d, 'stamp')
        exe = os.path.join(d, 'b', name)
        if os.path.exists(stamp) and open(stamp).read() == h.hexdigest() and os.path.exists(exe):
            return exe
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, 'CMakeLists.txt'), 'w') as f:
            f.write('cmake_minimum_required(VERSION 3.16)\nproject(h LANGUAGES C)\n'
                    'set(CMAKE_C_STANDARD 11)\nset(THREADS_PREFER_PTHREAD_FLAG TRUE)\nfind_package(Threads)\n')
            for l in libs:
                f.write(f'find_package(toywasm-lib-{l} REQUIRED)\n')
            f.write(f'add_executable({name} {" ".join(srcs)})\n')
            tl = ' '.join(f'toywasm-lib-{l}' for l in libs)
            f.write(f'target_link_libraries({name} {tl} m Threads::Threads)\n')
            if cflags:
                f.write(f'target_compile_options({name} PRIVATE {" ".join(cflags)})\n')
            if ldflags:
                f.write(f'target_link_options({name} PRIVATE {" ".join(ldflags)})\n')
        san = {'asan': '-fsanitize=address,undefined -fno-sanitize=pointer-overflow,nonnull-attribute '
                       '-fno-sanitize-recover=all', 'tsan': '-fsanitize=thread', 'msan': '-fsanitize=memory -fno-sanitize-memory-param-retval -fno-sanitize-recover=all'}.get(config, '')
        log = os.path.join(d, 'log')
        _run(['cmake', '-S', d, '-B', d + '/b', '-G', 'Ninja', '-DCMAKE_C_COMPILER=' + cc,
              '-DCMAKE_BUILD_TYPE=Debug', '-DCMAKE_C_FLAGS_DEBUG=-O1 -g1', '-DCMAKE_C_FLAGS=-fno-omit-frame-pointer ' + san,
              '-DCMAKE_EXE_LINKER_FLAGS=-fuse-ld=lld', '-DCMAKE_PREFIX_PATH=' + prefix], log)
        _run(['ninja', '-C', d + '/b'], log)
        with open(stamp, 'w') as f:
            f.write(h.hexdigest())
    return exe


if __name__ == '__main__':
    build_many(sys.argv[1:] or list(CONFIGS))
