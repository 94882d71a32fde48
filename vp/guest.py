"""Guests in /verif/guest, compiled with clang for wasm32."""
import fcntl
import hashlib
import os
import subprocess

from .common import VERIF, Inconclusive

SRC = os.path.join(VERIF, 'guest')
OUT = os.path.join(VERIF, '.build', 'guest')


def wasm(name, initial=8 << 20, maximum=64 << 20, threads=True):
    """Path of guest/<name>.c compiled and linked with guest/g.c."""
    os.makedirs(OUT, exist_ok=True)
    fl = ['--target=wasm32', '-O2', '-ffreestanding', '-nostdlib', '-mbulk-memory', '-mmutable-globals', '-fno-builtin', '-Wall', '-Wno-unused']
    ld = ['-Wl,--no-entry', '-Wl,--export=_start', '-Wl,--export-memory', f'-Wl,--initial-memory={initial}', f'-Wl,--max-memory={maximum}',
          '-Wl,-z,stack-size=65536', '-fuse-ld=lld']
    if threads:
        fl += ['-matomics']
        ld += ['-Wl,--shared-memory', '-Wl,--import-memory', '-Wl,--no-check-features']
    src = [os.path.join(SRC, name + '.c'), os.path.join(SRC, 'g.c')] + ([os.path.join(SRC, 'start.s')] if threads else [])
    h = hashlib.sha256(repr((fl, ld)).encode())
    for f in src + [os.path.join(SRC, 'g.h')]:
        with open(f, 'rb') as fp:
            h.update(fp.read())
    out = os.path.join(OUT, f'{name}-{h.hexdigest()[:16]}.wasm')
    with open(os.path.join(OUT, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            r = subprocess.run(['/usr/bin/clang-18', *fl, *ld, *src, '-o', out + '.tmp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise Inconclusive('guest ' + name + ': ' + r.stdout.decode()[-3000:])
            os.rename(out + '.tmp', out)
    return out
