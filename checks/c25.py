"""C25: writing a loaded module out gives an equivalent module."""
import base64
import concurrent.futures as cf
import json
import os
import struct
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, decode, diff, modgen, progcheck  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import NPROC, crash_summary, run_check, scratch_dir, tool_env  # noqa: E402
from vp.validate import validate  # noqa: E402
from vp.wasm import END, I32, leb_u, vec  # noqa: E402
import checks.c07  # noqa: E402
import checks.c13  # noqa: E402


def mods(r, i):
    """valid modules of all shapes"""
    if i % 12 == 0:
        return [special(r)]
    out = [x[0] for x in checks.c07.batch(r, i) if x[1]]
    out += [modgen.struct_module(r, 0) for _ in range(3)]
    return out


def special(r):
    """sections struct_module has little of"""
    S = []
    k = r.randrange(9)
    S.append([1, vec([b'\x60\0\0'])])
    if k == 0:      # sizes which need several bytes
        n = r.choice([127, 128, 129, 300, 16384])
        S += [[3, vec([b'\0'] * n)], [7, vec(vec([bytes([x]) for x in b'%d' % j]) + b'\0' + leb_u(j) for j in range(0, n, 7))],
              [10, vec([leb_u(2) + b'\0\x0b'] * n)]]
    elif k == 1:    # names
        nms = [b'', b'\0', b'a\0b', 'é日本😀'.encode(), b'x' * r.choice([127, 128, 20000]), b'\n "\\']
        nm = lambda: (lambda x: leb_u(len(x)) + x)(r.choice(nms))  # noqa: E731
        S += [[2, vec(nm() + nm() + b'\0\0' for _ in range(5))], [7, vec(leb_u(len(x)) + x + b'\0\0' for x in nms)]]
    elif k == 2:    # memories with other page sizes
        ms = []
        for _ in range(r.randrange(1, 5)):
            sh = r.choice([0, 16])
            mx = r.choice([0, 1, 5, 65536] + ([0x10000000, 0xfffffffe, 0xffffffff] if sh == 0 else []))
            fl = r.choice([1, 3, 0, 9, 11, 8])
            if not fl & 8:
                sh, mx = 16, min(mx, 65536)
            ms.append(bytes([fl]) + leb_u(r.choice([0, min(mx, 1), min(mx, 2)])) + (leb_u(mx) if fl & 1 else b'') + (leb_u(sh) if fl & 8 else b''))
        S += [[2, vec([b'\1a\1b\2' + r.choice(ms)])], [5, vec(ms)]]
    elif k == 3:    # tags
        S[0] = [1, vec([b'\x60\0\0', b'\x60\1\x7f\0', b'\x60\2\x7b\x70\0'])]
        S += [[2, vec(b'\1t\1' + bytes([97 + j]) + b'\4\0' + bytes([r.randrange(3)]) for j in range(r.randrange(3)))]]
        ni = S[-1][1][0]
        S += [[13, vec(b'\0' + bytes([r.randrange(3)]) for _ in range(1 + r.randrange(3)))],
              [7, vec(b'\1' + bytes([97 + j]) + b'\4' + bytes([j]) for j in range(ni + 1))]]
    elif k == 4:    # data
        ds = []
        for _ in range(r.randrange(1, 6)):
            pl = r.randbytes(r.choice([0, 0, 1, 127, 128, 70000]))
            ds.append(r.choice([b'\0' + W.i32c(r.randrange(100)) + END, b'\1', b'\2\0' + W.i32c(1) + END, b'\2\1\x23\0' + END]) + leb_u(len(pl)) + pl)
        S += [[2, vec([b'\1a\1g\3\x7f\0'])], [5, vec([b'\0\4', b'\1\4\5'])], [11, vec(ds)]]
    elif k == 5:    # element segments, each form, empty or not
        es = []
        for f in r.sample(range(8), 8):
            b = leb_u(f)
            if not f & 1:
                b += (leb_u(r.randrange(2)) if f & 2 else b'') + W.i32c(r.choice([0, 1, -1])) + END
            n = r.choice([0, 0, 1, 3])
            if f & 3:
                b += b'\x70' if f & 4 else b'\0'
            b += vec([r.choice([b'\xd2\0\x0b', b'\xd0\x70\x0b', b'\xd2\x80\0\x0b'])] * n if f & 4 else [r.choice([b'\0', b'\x81\0'])] * n)
            es.append(b)
        es.append(b'\5\x6f' + vec([b'\xd0\x6f\x0b'] * r.randrange(3)))
        es.append(b'\6\2' + W.i32c(0) + END + b'\x6f' + vec([b'\xd0\x6f\x0b'] * r.randrange(3)))
        S += [[3, vec([b'\0', b'\0'])], [4, vec([b'\x70\0\5', b'\x70\1\5\xff\xff\xff\xff\x0f', b'\x6f\1\0\4'])], [9, vec(es)],
              [10, vec([leb_u(2) + b'\0\x0b'] * 2)]]
    elif k == 6:    # locals
        ls = [b'\0', vec([b'\0\x7f', leb_u(3) + b'\x7e', b'\0\x7b']), vec([b'\1\x7f'] * 200), vec([leb_u(40000) + b'\x7b', leb_u(9) + b'\x69']),
              vec([b'\2\x7f', b'\3\x7f'])]
        bd = [x + b'\x0b' for x in r.sample(ls, 4)]
        S += [[3, vec([b'\0'] * 4)], [8, leb_u(r.randrange(4))], [10, vec(leb_u(len(x)) + x for x in bd)]]
    elif k == 7:    # globals with extended constant expressions
        gs = [b'\x7f\0' + W.i32c(3) + W.i32c(-4) + b'\x6c\x23\0\x6a\x0b', b'\x7b\1\xfd\x0c' + r.randbytes(16) + END, b'\x70\1\xd2\0\x0b',
              b'\x70\0\xd0\x70\x0b', b'\x6f\1\xd0\x6f\x0b', b'\x7d\0\x43' + r.randbytes(4) + END, b'\x7c\1\x44' + r.randbytes(8) + END,
              b'\x7e\0\x42\x7f\x42\1\x7d\x0b']
        S += [[2, vec([b'\1a\1g\3\x7f\0'])], [3, vec([b'\0'])], [6, vec(r.sample(gs, 6))], [10, vec([b'\2\0\x0b'])]]
    else:           # nothing, or next to nothing
        S = r.choice([[], [[0, b'\1x']], [[1, b'\0']], [[1, b'\x80\0'], [3, b'\0'], [7, b'\0'], [10, b'\0'], [11, b'\0']], [[5, b'\1\0\0'], [12, b'\0']],
                      [[4, b'\1\x70\0\0']]])
    return modgen.join(S)


def save(exe, mods, opts=(), watchdog=300, fsize=None):
    """[{codes, one, two} | {'crash': info}] per module"""
    sd = scratch_dir()
    n = len(mods)
    shard = max(1, (n + NPROC - 1) // NPROC)
    out = [None] * n

    def work(lo):
        part = mods[lo:lo + shard]
        d = os.path.join(sd, f'd{lo}')
        os.mkdir(d)
        fn = os.path.join(d, 'batch')
        pre = ['prlimit', f'--fsize={fsize}', '--'] if fsize else []
        with open(fn, 'wb') as f:
            for m in part:
                f.write(struct.pack('<I', len(m)) + m)
        first = crashes = 0
        while first < len(part) and crashes < 3:
            p = subprocess.Popen(pre + [exe, fn, str(first), d] + list(opts), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 env=tool_env(leaks=True), cwd=d, restore_signals=not fsize)
            hung = False
            try:
                o, err = p.communicate(timeout=watchdog)
            except subprocess.TimeoutExpired:
                p.kill()
                o, err = p.communicate()
                hung = True
            done = first
            for line in o.decode().split('\n')[:-1]:
                i, *codes = map(int, line.split())
                r = dict(codes=codes)
                for k, nm in ((1, 'one'), (3, 'two')):
                    if codes[k] == 0:
                        with open(os.path.join(d, f'{i}.{k // 2 + 1}'), 'rb') as f:
                            r[nm] = f.read()
                for k in (1, 2):
                    x = os.path.join(d, f'{i}.{k}')
                    if os.path.exists(x):
                        os.unlink(x)
                out[lo + i] = r
                done = i + 1
            if p.returncode == 0 and done == len(part):
                break
            crashes += 1
            i = min(done, len(part) - 1)
            out[lo + i] = {'crash': dict(kind='hang' if hung else 'crash', summary='no answer' if hung else crash_summary(err, p.returncode),
                                         stderr=err.decode('utf-8', 'replace')[-8000:])}
            first = done + 1
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(work, range(0, n, shard)))
    return out


JS = '''
const fs = require('fs');
const d = JSON.parse(fs.readFileSync(0));
const mx = { memory: 65536, table: 4294967295 };
// to toywasm, no maximum is the same as the largest possible one
const n = (x) => { if (x.type && x.type.maximum == mx[x.kind]) delete x.type.maximum; return JSON.stringify(x); };
const t = (m) => JSON.stringify([WebAssembly.Module.imports(m).map(n), WebAssembly.Module.exports(m).map(n).sort()]);
console.log(JSON.stringify(d.map(([a, b]) => {
  a = Buffer.from(a, 'base64'); b = Buffer.from(b, 'base64');
  if (!WebAssembly.validate(a)) return 'skip';
  if (!WebAssembly.validate(b)) { try { new WebAssembly.Module(b); } catch (e) { return 'invalid: ' + e.message; } }
  const x = t(new WebAssembly.Module(a)), y = t(new WebAssembly.Module(b));
  return x == y ? 'same' : `differ: ${x} -> ${y}`;
})));
'''


def v8(pairs):
    def work(part):
        p = subprocess.run(['node', '--experimental-wasm-type-reflection', '--experimental-wasm-exnref', '-e', JS], input=json.dumps([[base64.b64encode(x).decode() for x in y] for y in part]).encode(),
                           stdout=subprocess.PIPE, env=tool_env(), check=True, timeout=600)
        return json.loads(p.stdout)
    sh = max(1, (len(pairs) + NPROC - 1) // NPROC)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        return [x for y in ex.map(work, [pairs[i:i + sh] for i in range(0, len(pairs), sh)]) for x in y]


def judge(c, label, ms, res):
    n = 0
    secs = c.coverage.setdefault('sections compared', {})
    pairs = []
    for i, (b, x) in enumerate(zip(ms, res)):
        if x is None:
            continue
        rp = dict(module=b.hex()[:400000])
        if 'crash' in x:
            c.violation(f'{label}:crash:{x["crash"]["summary"][:80]}', f'{x["crash"]["kind"]}: {x["crash"]["summary"]}', dict(rp, info=x['crash']))
            continue
        l1, s1, l2, s2 = x['codes']
        if l1:
            continue
        c.evaluations += 1
        if s1 or l2 or s2:
            what = 'saving failed' if s1 else 'the saved module does not load' if l2 else 'saving the saved module failed'
            c.violation(f'{label}:{what}:{i}', f'{what}: {x["codes"]}', dict(rp, saved=x.get('one', b'').hex()))
            continue
        if x['one'] != x['two']:
            c.violation(f'{label}:unstable:{i}', 'a second save differs from the first', dict(rp, one=x['one'].hex(), two=x['two'].hex()))
            continue
        ok, why, _ = validate(x['one'])
        if not ok:
            c.violation(f'{label}:invalid:{i}', f'the saved module is invalid: {why}', dict(rp, saved=x['one'].hex()))
            continue
        a, e = decode.decode(x['one']), decode.decode(b)
        if a != e:
            k = [k for k in sorted(set(a) | set(e)) if a.get(k) != e.get(k)]
            c.violation(f'{label}:content:{k}:{i}', f'{k} of the saved module: {str(a.get(k[0]))[:300]}, was {str(e.get(k[0]))[:300]}',
                        dict(rp, saved=x['one'].hex()))
            continue
        for k in e:
            secs[k] = secs.get(k, 0) + 1
        n += 1
        c.distinct(x['one'])
        pairs.append((i, b, x['one']))
    bad = v8([p[1:] for p in pairs])
    st = {}
    for (i, b, s), r in zip(pairs, bad):
        st[r.split(':')[0]] = st.get(r.split(':')[0], 0) + 1
        if r not in ('same', 'skip'):
            c.violation(f'{label}:v8:{i}', f'V8 on the saved module: {r[:500]}', dict(module=b.hex(), saved=s.hex()))
    c.log(f'{label}: {len(ms)} modules, {n} saved alike; V8: {st}')
    c.coverage[f'{label} V8'] = st


def full(c, exe, ms):
    """saving must not pretend to have written what did not fit"""
    big = [m for m in ms if len(m) > 20][:c.scale(200, 2000)]
    whole = save(exe, big)
    n = 0
    for lim in (1, 8, 4096):
        for m, w, x in zip(big, whole, save(exe, big, fsize=lim)):
            if not w or not x or 'one' not in w or 'codes' not in x or len(w['one']) <= lim:
                continue
            n += 1
            if x['codes'][1] == 0:
                c.violation(f'full:{lim}', f'saving {len(w["one"])} bytes where only {lim} fit succeeded', dict(module=m.hex(), codes=x['codes']))
    c.evaluations += n
    c.coverage['failing writes'] = n
    c.log(f'{n} saves without space')


def repl(c, ms):
    """the save command of the REPL"""
    sd = scratch_dir()
    sub = [m for m in ms if not any(i == 2 for i, _ in secs(m))][:c.scale(60, 500)]
    want = save(build.harness('rel', 'saver', ['saver.c']), sub)
    n = 0
    for i, (m, w) in enumerate(zip(sub, want)):
        if not w or 'one' not in w:
            continue
        fn = os.path.join(sd, 'm.wasm')
        out = os.path.join(sd, f'{i}.wasm')
        with open(fn, 'wb') as f:
            f.write(m)
        p = subprocess.run([build.cli('rel'), '--repl', '--repl-prompt', 'p', '--max-frames', '100'],
                           input=f':module a load {fn}\n:module a save {out}\n:exit\n'.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=tool_env(), timeout=60)
        if b'rror' in p.stdout + p.stderr:
            # did not instantiate
            continue
        n += 1
        c.evaluations += 1
        got = open(out, 'rb').read() if os.path.exists(out) else None
        if got != w['one']:
            c.violation(f'repl:{i}', 'the file written by the save command is not the module', dict(module=m.hex(), out=p.stdout.decode('utf-8', 'replace')))
    c.coverage['saves by the REPL'] = n
    c.log(f'{n} saves by the REPL')


def secs(m):
    try:
        return modgen.sections(m)
    except Exception:
        return []


def main(c):
    c.rule = 'distinct saved modules which were compared'
    exe = {k: build.harness(k, 'saver', ['saver.c']) for k in ('asan', 'rel', 'dbg')}
    ms = [b for x in progcheck.pgen('checks.c25', 'mods', f'C25:{c.seed}', c.scale(1500, 60000)) for b in x]
    judge(c, 'asan', ms, save(exe['asan'], ms))
    if len(c.violations) > 10:
        return
    judge(c, 'rel', ms[::3], save(exe['rel'], ms[::3]))
    judge(c, 'nojump', ms[1::3], save(exe['dbg'], ms[1::3], ['nojump']))
    full(c, exe['asan'], ms)
    repl(c, ms)
    # behaviour
    cases = [checks.c13.fix(x) for x in progcheck.pgen('checks.c13', 'case', f'C25b:{c.seed}', c.scale(900, 20000))]
    pos = [(i, k) for i, x in enumerate(cases) for k, s in enumerate(x) if s['op'] == 'load']
    orig = [cases[i][k]['bytes'] for i, k in pos]
    res = save(exe['rel'], orig)
    judge(c, 'programs', orig, res)
    saved = [[dict(s) for s in x] for x in cases]
    for (i, k), x in zip(pos, res):
        if x and 'one' in x:
            saved[i][k]['bytes'] = x['one']
    ref = diff.run_toywasm(build.cli('rel'), cases)
    tw = diff.run_toywasm(build.cli('rel'), saved)
    diff.compare(c, cases, tw, ref, 'behaviour')
    n = sum(len(x) for x in tw if x)
    c.coverage['outcomes of saved programs'] = n
    c.evaluations += n


if __name__ == '__main__':
    run_check('C25', main)
