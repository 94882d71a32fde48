"""C11: limits on frames, operand cells and memory.

Random call graphs over two linked modules (direct, indirect, imported and
tail calls, recursion, loops, exceptions, held operands, start functions) are
run with limits around what they need.  A Python model follows the calls and
gives the depth, the live operand cells and the checksum at each moment: under
a frame limit the program must end exactly at the first call which exceeds it
and otherwise be unaffected; under a cell limit it must end before exceeding
it and be unaffected when it has all it could need.  Memory limits are judged
with a heap monitor preloaded into the command."""
import concurrent.futures as cf
import os
import re
import subprocess
import sys
import tempfile
import shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import NPROC, VERIF, Inconclusive, crash_summary, run_check, scratch_dir, tool_env  # noqa: E402
from vp.wasm import DROP, END, F32, F64, FUNCREF, I32, I64, V128, call, gget, gset, i32c, i64c, leb_u, lget, lset, vec  # noqa: E402
import random  # noqa: E402

CELLS = {I32: 1, F32: 1, I64: 2, F64: 2, V128: 4, FUNCREF: 2}
M64 = (1 << 64) - 1
EXN = 64      # a thrown exception may take cells
MARK = 4      # cells of the checksum update
sys.setrecursionlimit(20000)


class TooBig(Exception):
    pass


class Thrown(Exception):
    pass


def csize(ts):
    return sum(CELLS[t] for t in ts)


def value(rng, t):
    if t == FUNCREF:
        return b'\xd0\x70'
    return W.const(t, rng.getrandbits({I32: 32, F32: 30, I64: 64, F64: 62, V128: 128}[t]))


class Prog:
    """F[i] takes (i32 n, extra...) and calls F[j>i] or itself with n-1."""

    def __init__(self, rng):
        self.rng = rng
        n = rng.randint(2, 8)
        ty = [I32, I64, F32, F64, V128, FUNCREF]
        sigs = [([I32] + [rng.choice(ty) for _ in range(rng.choice([0, 0, 1, 3, 9]))], [rng.choice(ty) for _ in range(rng.choice([0, 0, 1, 1, 2, 5]))])
                for _ in range(3)]
        self.F = []
        for i in range(n):
            s = rng.choice(sigs)
            self.F.append(dict(owner=rng.randrange(2), sig=s, locals=[rng.choice(ty) for _ in range(rng.choice([0, 0, 2, 20]))],
                               throws=i > 0 and rng.random() < 0.12, body=None))
        for i in range(n):
            self.F[i]['body'] = self.mkbody(i)
        self.start = rng.random() < 0.2
        self.n0 = rng.choice([0, 1, 3, 10, rng.randint(20, 120)])

    def mkcall(self, i, j, rec):
        r = self.rng
        return dict(k='call', j=j, rec=rec, n=r.choice([0, 0, 1, 2, 7]), held=[r.choice([I32, I64, F32, F64, V128, FUNCREF]) for _ in range(r.choice([0, 0, 1, 4, 30]))],
                    indirect=r.random() < 0.4, guard=r.random() < 0.6, tail=False, loops=r.choice([1, 1, 1, 2, 3]) if not rec else 1)

    def mkbody(self, i):
        r = self.rng
        n = len(self.F)
        out = [dict(k='mark', id=r.getrandbits(31))]
        rec_done = False
        for _ in range(r.randint(0, 4)):
            x = r.random()
            if x < 0.2:
                out.append(dict(k='mark', id=r.getrandbits(31)))
            elif x < 0.35:
                out.append(dict(k='push', ts=[r.choice([I32, I64, F32, F64, V128, FUNCREF]) for _ in range(r.randint(1, 40))], cond=r.random() < 0.15))
            elif x < 0.6 and not rec_done:
                rec_done = True
                out.append(self.mkcall(i, i, True))
            elif i + 1 < n:
                out.append(self.mkcall(i, r.randrange(i + 1, n), False))
        if r.random() < 0.25:
            js = [j for j in range(i + 1, n) if self.F[j]['sig'][1] == self.F[i]['sig'][1]]
            if js:
                c = self.mkcall(i, r.choice(js), False)
                c.update(tail=True, held=c['held'], loops=1)
                out.append(c)
            elif not rec_done:
                c = self.mkcall(i, i, True)
                c.update(tail=True, loops=1)
                out.append(c)
        return out

    # ---- code

    def encode(self):
        rng = random.Random(self.rng.getrandbits(64))
        A, B = W.Module(), W.Module()
        n = len(self.F)
        B.import_('a', 'acc', 3, bytes([W.VT[I64], 1]))
        acc = A.global_(I64, True, i64c(0))
        A.export('acc', 3, acc)
        B.import_('a', 't', 1, bytes([W.VT[FUNCREF]]) + W.limits(n, n))
        A.export('t', 1, A.table(FUNCREF, n, n))
        B.import_('a', 'x', 4, leb_u(B.type([], [])))
        A.export('x', 4, A.tag([]))
        idx = {}
        for i, f in enumerate(self.F):
            if f['owner'] == 0:
                idx[0, i] = A.func(*f['sig'])
                A.export(f'f{i}', 0, idx[0, i])
        for i, f in enumerate(self.F):
            if f['owner'] == 0:
                idx[1, i] = B.import_func('a', f'f{i}', *f['sig'])
        for i, f in enumerate(self.F):
            if f['owner'] == 1:
                idx[1, i] = B.func(*f['sig'])
                B.export(f'f{i}', 0, idx[1, i])
        for own, m in ((0, A), (1, B)):
            for i, f in enumerate(self.F):
                if f['owner'] == own:
                    m.elems.append(b'\0' + i32c(i) + END + vec([leb_u(idx[own, i])]))
        for i, f in enumerate(self.F):
            m = (A, B)[f['owner']]
            m.set_body(idx[f['owner'], i], f['locals'] + [I32], self.code(rng, m, idx, i))
        for m in (A, B):
            own = 1 if m is B else 0
            if (own, 0) in idx:
                f0 = self.F[0]
                m.export('go', 0, idx[own, 0])
        args = lambda: b''.join(value(rng, t) for t in self.F[0]['sig'][0][1:])  # noqa: E731
        w = B.func([], [], [], i32c(self.n0) + args() + call(idx[1, 0]) + DROP * len(self.F[0]['sig'][1]))
        B.export('main', 0, w)
        if self.start:
            B.start = w
        return A.encode(), B.encode()

    def code(self, rng, m, idx, i):
        f = self.F[i]
        own = f['owner']
        npar = len(f['sig'][0])
        cnt = npar + len(f['locals'])
        b = b''
        for s in f['body']:
            if s['k'] == 'mark':
                b += gget(0) + i64c(31) + b'\x7e' + i64c(s['id']) + b'\x7c' + gset(0)
            elif s['k'] == 'push':
                q = b''.join(value(rng, t) for t in s['ts']) + DROP * len(s['ts'])
                b += lget(0) + b'\x04\x40' + q + END if s['cond'] else q
            else:
                j = s['j']
                pa, rs = self.F[j]['sig']
                q = b''.join(value(rng, t) for t in s['held'])
                q += (lget(0) + i32c(1) + b'\x6b') if s['rec'] else i32c(s['n'])
                q += b''.join(value(rng, t) for t in pa[1:])
                direct = (own, j) in idx and not s['indirect']
                if direct:
                    q += bytes([0x12 if s['tail'] else 0x10]) + leb_u(idx[own, j])
                else:
                    q += i32c(j) + bytes([0x13 if s['tail'] else 0x11]) + leb_u(m.type(pa, rs)) + b'\0'
                if s['tail']:
                    if s['rec']:
                        q = lget(0) + b'\x04\x40' + q + END
                    b += q
                    if not s['rec']:
                        return b
                    continue
                q += DROP * (len(rs) + len(s['held']))
                if s['guard']:
                    # try_table (catch_all 0) inside a block
                    q = b'\x02\x40' + b'\x1f\x40' + vec([b'\x02\0']) + q + END + END
                if s['rec']:
                    q = lget(0) + b'\x04\x40' + q + END
                if s['loops'] > 1:
                    q = i32c(s['loops']) + lset(cnt) + b'\x03\x40' + q + lget(cnt) + i32c(1) + b'\x6b' + W.ltee(cnt) + W.br_if(0) + END
                b += q
        if f['throws']:
            return b + b'\x08\0'
        return b + b''.join(value(rng, t) for t in f['sig'][1])

    # ---- model

    def run(self, via_main):
        """Returns the trace [(acc, depth, cells)], where a depth is recorded
        for each entered call and cells for each operand peak, and upper."""
        self.trace = []
        self.acc = 0
        self.upper = 0
        self.calls = 0
        fs = self.F[0]
        if via_main:
            a, r = csize(fs['sig'][0]), csize(fs['sig'][1])
            self.enter(1, 0)
            self.peak(max(a, r))
            self.upper = max(a, r)
            d, h = 2, a * 0
        else:
            self.peak(csize(fs['sig'][0]))
            self.upper = max(csize(fs['sig'][0]), csize(fs['sig'][1]))
            d, h = 1, 0
        out = 'ok'
        try:
            self.sim(0, self.n0, d, h)
            if not via_main:
                self.peak(csize(fs['sig'][1]))
        except Thrown:
            out = 'throw'
        return self.trace, out, self.acc, self.upper

    def enter(self, depth, height):
        self.trace.append((self.acc, depth, height))

    def peak(self, cells):
        self.trace.append((self.acc, None, cells))

    def static(self, i):
        f = self.F[i]
        m = csize(f['sig'][1]) + (EXN if f['throws'] else 0)
        for s in f['body']:
            if s['k'] == 'mark':
                m = max(m, MARK)
            elif s['k'] == 'push':
                m = max(m, csize(s['ts']), 1)
            else:
                pa, rs = self.F[s['j']]['sig']
                m = max(m, csize(s['held']) + max(csize(pa) + 1, csize(rs), 2))
        return m

    def sim(self, i, n, depth, height):
        while True:
            self.calls += 1
            if self.calls > 4000 or depth > 2000:
                raise TooBig
            self.enter(depth, height)
            self.upper = max(self.upper, height + self.static(i))
            f = self.F[i]
            nxt = None
            for s in f['body']:
                if s['k'] == 'mark':
                    self.peak(height + MARK)
                    self.acc = (self.acc * 31 + s['id']) & M64
                elif s['k'] == 'push':
                    if s['cond']:
                        self.peak(height + 1)
                    if not s['cond'] or n:
                        self.peak(height + csize(s['ts']))
                else:
                    if s['rec']:
                        self.peak(height + 1)
                        if not n:
                            continue
                    j = s['j']
                    pa, rs = self.F[j]['sig']
                    direct = not s['indirect'] and (f['owner'] == 1 or self.F[j]['owner'] == 0)
                    h = height + csize(s['held'])
                    tmp = h + csize(pa) + (0 if direct else 1)
                    if s['rec']:
                        tmp = max(tmp, h + 2)
                    if s['tail']:
                        self.peak(tmp)
                        nxt = (j, n - 1 if s['rec'] else s['n'])
                        break
                    for _ in range(s['loops']):
                        self.peak(tmp)
                        try:
                            self.sim(j, n - 1 if s['rec'] else s['n'], depth + 1, h)
                            self.peak(h + csize(rs))
                        except Thrown:
                            if not s['guard']:
                                raise
                    if s['loops'] > 1:
                        self.peak(height + 2)
            if nxt is not None:
                i, n = nxt
                continue
            if f['throws']:
                raise Thrown
            self.peak(height + csize(f['sig'][1]))
            return


OVERFLOW = re.compile(r'Error: \[trap\] stack overflow|too many frames|too many values')


def session(exe, opts, d, cmds, env=None, tmo=60):
    with open(os.path.join(d, 'cmds'), 'w') as f:
        f.write('\n'.join(cmds) + '\n')
    for att in (0, 1):
        try:
            with open(os.path.join(d, 'cmds')) as f:
                p = subprocess.run([exe, *opts, '--repl', '--repl-prompt', 'X'], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   env=env or tool_env(), timeout=tmo, cwd=d)
            return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            if att:
                return 'hang', '', ''


def one(exe, opts, d, via, n0, prog):
    """Outcome and checksum of a run."""
    args = ' '.join(['%d' % n0] + [{I32: '1', I64: '2', F32: '3', F64: '4', V128: '5', FUNCREF: 'null'}[t] for t in prog.F[0]['sig'][0][1:]])
    cmds = [':module a load a.wasm', ':module a register a', ':module b load b.wasm']
    own = 'ab'[prog.F[0]['owner']]
    if via == 'main':
        cmds.append(':module b invoke main')
    elif via == 'go':
        cmds.append(f':module {own} invoke go {args}')
    cmds += [':module a global-get acc']
    rc, out, err = session(exe, opts, d, cmds)
    if rc == 'hang':
        return 'hang', None, ''
    if rc != 0 or 'Assertion' in err or 'Sanitizer' in err or 'runtime error' in err:
        return 'crash', None, crash_summary(err, rc)
    m = re.findall(r'Result: (\d+):i64\nX> ?$', out)
    acc = int(m[-1]) if m else None
    if OVERFLOW.search(out):
        return 'overflow', acc, out
    if 'uncaught' in out or 'unhandled exception' in out.lower() or 'exception' in out.lower():
        return 'throw', acc, out
    if 'Error' in out or 'error' in out:
        return 'other', acc, out
    return 'ok', acc, out


def program(seed, i, exes, tier):
    rng = random.Random(f'C11:{seed}:{i}')
    bad, seen, n = [], [], 0
    while True:
        prog = Prog(rng)
        via = 'start' if prog.start else rng.choice(['main', 'go'])
        if via == 'go' and V128 in prog.F[0]['sig'][0]:
            via = 'main'
        try:
            trace, out, acc, upper = prog.run(via != 'go')
        except TooBig:
            continue
        break
    depth = max(d for _, d, _ in trace if d)
    # entry heights count as live cells too
    live = max(c for _, _, c in trace)
    d = tempfile.mkdtemp(prefix='c11-', dir=SCRATCH)
    try:
        a, b = prog.encode()
        open(d + '/a.wasm', 'wb').write(a)
        open(d + '/b.wasm', 'wb').write(b)
        todo = []
        for L in sorted({depth, depth - 1, depth + 1, rng.randint(1, depth), 1, 4294967295}):
            if L >= 1:
                todo.append(('--max-frames', L))
        for L in sorted({live, live - 1, live - 2, upper, upper + 1, rng.randint(8, max(8, live)), rng.randint(live, upper), 4294967295}):
            if L >= 8:
                todo.append(('--max-stack-cells', L))
        todo += [(k, rng.randrange(0, 8)) for k in ('--max-frames', '--max-stack-cells')]
        for opt, L in todo:
            cfg, exe = exes[rng.random() < 0.3]
            got, gacc, detail = one(exe, [opt, str(L)], d, via, prog.n0, prog)
            n += 1
            if opt == '--max-frames':
                first = next((x for x, dd, _ in trace if dd and dd > L), None)
                want = [('overflow', {first})] if first is not None else [(out, {acc})]
                if L == 0:
                    want = [('overflow', {0, None})]
            else:
                k = next((x for x, t in enumerate(trace) if t[2] > L), None)
                want = []
                if k is not None:
                    want = [('overflow', {t[0] for t in trace[:k + 1]})]
                    if L < 8:
                        want[0][1].update((0, None))
                else:
                    want = [(out, {acc})]
                    if L < upper:
                        want.append(('overflow', {t[0] for t in trace}))
            # uncaught exceptions during instantiation are reported as such
            ok = any(got == o and gacc in accs for o, accs in want)
            seen.append((opt, want[0][0], depth if 'frames' in opt else live, via))
            if not ok:
                rel = 'at' if L in (depth, live, upper) else 'below' if want[0][0] == 'overflow' else 'above'
                bad.append((f'{opt}:{got}:{want[0][0]}', f'{cfg} {opt} {L} ({rel} the need: depth {depth} live {live} upper {upper}) via {via}: {got} acc {gacc}, '
                            f'want {[(o, sorted(x for x in s if x is not None)[-3:]) for o, s in want]}\n{detail[-600:]}',
                            dict(program=i, a=a.hex(), b=b.hex(), opt=opt, limit=L, via=via, n0=prog.n0)))
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return n, bad, seen, dict(depth=depth, live=live, exact=live == upper, via=via, out=out)


# ---- threads

THREADS = r'''(module
 (import "wasi" "thread-spawn" (func $spawn (param i32) (result i32)))
 (import "wasi_snapshot_preview1" "proc_exit" (func $exit (param i32)))
 (import "env" "memory" (memory 1 1 shared))
 (export "memory" (memory 0))
 (func $rec (param i32) (result i64) (i64.const 7)
   (if (result i64) (local.get 0) (then (call $rec (i32.sub (local.get 0) (i32.const 1)))) (else (i64.const 1))) i64.add)
 (func (export "wasi_thread_start") (param i32 i32)
   (i64.store (i32.const 8) (call $rec (local.get 1)))
   (i32.atomic.store (i32.const 0) (i32.const 1))
   (drop (memory.atomic.notify (i32.const 0) (i32.const 1))))
 (func (export "_start")
   (if (i32.lt_s (call $spawn (i32.const DEPTH)) (i32.const 0)) (then (call $exit (i32.const 9))))
   (drop (memory.atomic.wait32 (i32.const 0) (i32.const 0) (i64.const -1)))
   (if (i64.ne (i64.load (i32.const 8)) (i64.const RESULT)) (then (call $exit (i32.const 8))))
   (call $exit (i32.const 42))))
'''


def threads(c, exes, d):
    n = 0
    rng = c.sub_rng('threads')
    for it in range(c.scale(12, 100)):
        D = rng.choice([0, 1, 5, 50, 400])
        wat = os.path.join(d, 't.wat')
        open(wat, 'w').write(THREADS.replace('DEPTH', str(D)).replace('RESULT', str(7 * (D + 1) + 1)))
        subprocess.run(['wat2wasm', '--enable-threads', wat, '-o', os.path.join(d, 't.wasm')], check=True)
        need = D + 2        # wasi_thread_start and D+1 calls of rec
        cells = [2 * (D + 1) + 4 + 1, 2 * (D + 1) + 1]
        for opt, L, want in (('--max-frames', need, 42), ('--max-frames', need - 1, 1), ('--max-stack-cells', cells[0] + 8, 42), ('--max-stack-cells', max(8, cells[1] - 2), 1 if cells[1] - 2 >= 8 else 42)):
            if opt == '--max-frames' and L < 2 and want == 42:
                continue
            for cfg, exe in exes:
                for att in (0, 1):
                    try:
                        p = subprocess.run([exe, opt, str(L), '--wasi', os.path.join(d, 't.wasm')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=tool_env(), timeout=60)
                        break
                    except subprocess.TimeoutExpired:
                        p = None
                n += 1
                c.evaluations += 1
                c.distinct(('thread', opt, L, D))
                rc = 'hang' if p is None else p.returncode
                out = b'' if p is None else p.stdout
                if rc != want or (want == 1 and b'stack overflow' not in out):
                    c.violation(f'thread:{opt}:{rc}', f'{cfg}: a thread recursing {D} deep with {opt} {L}: {rc} (want {want}) {out[-300:]!r} '
                                f'{b"" if p is None else p.stderr[-500:]!r}', dict(D=D, opt=opt, L=L))
    return n


# ---- memory

def mem_workloads():
    """name -> (module, invoke, description); each takes megabytes of one kind."""
    out = {}

    def mod(f, params=(I32,), results=(I32,)):
        m = W.Module()
        f(m)
        return m.encode()

    def frames(m):
        f = m.func([I32], [I32])
        m.set_body(f, [], lget(0) + b'\x04\x7f' + lget(0) + i32c(1) + b'\x6b' + call(f) + W.ELSE + i32c(7) + END)
        m.export('f', 0, f)
    out['frames'] = (mod(frames), 'f 60000')

    def locs(m):
        f = m.func([I32], [I32])
        m.set_body(f, [I64] * 200, lget(0) + b'\x04\x7f' + lget(0) + i32c(1) + b'\x6b' + call(f) + W.ELSE + i32c(7) + END)
        m.export('f', 0, f)
    out['locals'] = (mod(locs), 'f 3000')

    def stack(m):
        f = m.func([I32], [I32])
        b = b''.join(W.v128c(i) for i in range(100))
        m.set_body(f, [], b + lget(0) + b'\x04\x7f' + lget(0) + i32c(1) + b'\x6b' + call(f) + W.ELSE + i32c(7) + END + lset(0) + DROP * 100 + lget(0))
        m.export('f', 0, f)
    out['operands'] = (mod(stack), 'f 2500')

    def labels(m):
        f = m.func([I32], [I32])
        b = lget(0) + b'\x04\x7f' + lget(0) + i32c(1) + b'\x6b' + call(f) + W.ELSE + i32c(7) + END
        for _ in range(60):
            b = b'\x02\x7f' + b + END
        m.set_body(f, [], b)
        m.export('f', 0, f)
    out['labels'] = (mod(labels), 'f 5000')

    def memory(m):
        m.memory(1, 100)
        # grow n pages one by one and touch each; number of pages which worked
        b = b'\x02\x40\x03\x40' + i32c(1) + b'\x40\0' + i32c(-1) + b'\x46' + W.br_if(1) + \
            b'\x3f\0' + i32c(65536) + b'\x6c' + i32c(4) + b'\x6b' + i32c(77) + b'\x36\x02\0' + \
            lget(0) + i32c(1) + b'\x6b' + W.ltee(0) + W.br_if(0) + END + END + b'\x3f\0'
        f = m.func([I32], [I32], [], b)
        m.export('f', 0, f)
    out['memory'] = (mod(memory), 'f 60')

    def mem0(m):
        m.memory(0, 100)
        f = m.func([I32], [I32], [], lget(0) + b'\x40\0' + b'\x1a' + i32c(0) + i32c(1) + b'\x3f\0' + i32c(16) + b'\x74' + W.fc(11) + b'\0' + b'\x3f\0')
        m.export('f', 0, f)
    out['fill'] = (mod(mem0), 'f 64')

    def table(m):
        m.table(W.EXTERNREF, 0)
        b = b'\x02\x40\x03\x40' + b'\xd0\x6f' + i32c(10000) + W.fc(15) + b'\0' + i32c(-1) + b'\x46' + W.br_if(1) + \
            lget(0) + i32c(1) + b'\x6b' + W.ltee(0) + W.br_if(0) + END + END + W.fc(16) + b'\0'
        f = m.func([I32], [I32], [], b)
        m.export('f', 0, f)
    out['table'] = (mod(table), 'f 40')

    def table0(m):
        m.table(FUNCREF, 400000)
        m.export('f', 0, m.func([I32], [I32], [], W.fc(16) + b'\0'))
    out['table-min'] = (mod(table0), 'f 0')

    def many(m):
        for i in range(20000):
            m.func([I32], [I32], [I64], lget(0))
        m.export('f', 0, 0)
    out['functions'] = (mod(many), 'f 5')

    def branches(m):
        b = (b'\x02\x40' + END) * 400000
        m.export('f', 0, m.func([I32], [I32], [], b + lget(0)))
    out['code'] = (mod(branches), 'f 5')

    def glob(m):
        for i in range(30000):
            m.global_(I64, True, i64c(i))
        m.export('f', 0, m.func([I32], [I32], [], lget(0)))
    out['globals'] = (mod(glob), 'f 5')

    def types(m):
        for i in range(20000):
            m.types.append((tuple(I32 if i >> k & 1 else I64 for k in range(12)), (I32,) * (i % 20)))
        m.export('f', 0, m.func([I32], [I32], [], lget(0)))
    out['types'] = (mod(types), 'f 5')

    def elems(m):
        m.table(FUNCREF, 10)
        f = m.func([I32], [I32], [], lget(0))
        m.export('f', 0, f)
        m.elems.append(b'\x01\0' + vec([leb_u(f)] * 200000))
    out['elements'] = (mod(elems), 'f 5')

    def exports(m):
        f = m.func([I32], [I32], [], lget(0))
        m.export('f', 0, f)
        for i in range(20000):
            m.export(f'name-{i}', 0, f)
    out['exports'] = (mod(exports), 'f 5')

    def churn(m):
        # deep calls again and again: what was released is not charged twice
        f = m.func([I32], [I32])
        m.set_body(f, [], lget(0) + b'\x04\x7f' + lget(0) + i32c(1) + b'\x6b' + call(f) + W.ELSE + i32c(7) + END)
        g = m.func([I32], [I32], [I32], b'\x03\x40' + i32c(30000) + call(f) + lset(1) + lget(0) + i32c(1) + b'\x6b' + W.ltee(0) + W.br_if(0) + END + lget(1))
        m.export('f', 0, g)
    out['churn'] = (mod(churn), 'f 60')
    return out


SLACK = 192 * 1024


def memrun(exe, lib, wasm, inv, limit, d, extra=(), cmds=None):
    out = os.path.join(d, 'mt.out')
    if os.path.exists(out):
        os.unlink(out)
    env = tool_env(LD_PRELOAD=lib, MEMTRACK_OUT=out)
    opts = ['--max-memory', str(limit)] if limit is not None else []
    if cmds is None:
        cmds = [f':module a load {wasm}', f':module a invoke {inv}']
    rc, o, err = session(exe, opts + list(extra), d, cmds, env, 120)
    if rc == 'hang':
        return 'hang', o, err, 0, 0
    high, low = map(int, open(out).read().split()[:2]) if os.path.exists(out) else (0, 0)
    return rc, o, err, high, low


def memcase(name, data, inv, exe, lib, seed, cmds=None):
    rng = random.Random(f'C11m:{seed}:{name}')
    # the file may be read into the heap; qsort of the exports makes a copy
    slack = SLACK + len(data) + (32 * 20000 if name == 'exports' else 0)
    d = tempfile.mkdtemp(prefix='c11m-', dir=SCRATCH)
    bad = []
    obs = []
    wasm = os.path.join(d, 'm.wasm')
    open(wasm, 'wb').write(data)
    if cmds:
        cmds = [x.replace('WASM', wasm) for x in cmds]
    try:
        rc, o, err, P, Plow = memrun(exe, lib, wasm, inv, None, d, cmds=cmds)
        if rc != 0 or 'Error' in o or 'Result' not in o:
            return [(f'mem:{name}:base', f'{name} fails without a limit: {rc} {o[-300:]} {err[-300:]}', name)], [], 0
        if 2 * Plow < 3 * slack and name != 'exports':
            raise Inconclusive(f'{name}: workload takes only {Plow} bytes')
        base = o
        full = re.findall('Result.*', o)

        def attempt(N):
            rc, o, err, _, peak = memrun(exe, lib, wasm, inv, N, d, cmds=cmds)
            obs.append((N, peak, o == base))
            if rc != 0 or 'Assertion' in err:
                bad.append((f'mem:{name}:crash', f'{name} with --max-memory {N}: {crash_summary(err, rc)} {o[-300:]}', name))
            elif peak > N + slack:
                bad.append((f'mem:{name}:over', f'{name} with --max-memory {N} used {peak} bytes of heap', name))
            elif o != base and 'Error' not in o and name not in ('memory', 'table', 'fill'):
                bad.append((f'mem:{name}:silent', f'{name} with --max-memory {N}: other output without an error: {o[-300:]} instead of {base[-300:]}', name))
            elif o != base and name in ('memory', 'table') and 'Error' not in o:
                # the program saw the growth fail
                v = [int(x) for x in re.findall(r'Result: (\d+):i32', o)]
                w = [int(x) for x in re.findall(r'Result: (\d+):i32', base)]
                if len(v) != len(w) or any(a > b for a, b in zip(v, w)):
                    bad.append((f'mem:{name}:wrong', f'{name} with --max-memory {N}: {o[-300:]}', name))
            return o == base
        # exactly what it says it took at most is enough
        o = memrun(exe, lib, wasm, inv, None, d, ('--print-stats',), cmds)[1]
        said = [int(x) for x in re.findall(r'^ *total +\d+ \(peak +(\d+)\)', o, re.M)]
        if said and not attempt(max(said)):
            bad.append((f'mem:{name}:exact', f'{name} takes at most {max(said)} bytes and fails with --max-memory {max(said)}', name))
            return bad, obs, P
        # the least limit which is enough
        if not attempt(P + slack):
            bad.append((f'mem:{name}:unneeded', f'{name} needs {P} bytes and fails with --max-memory {P + slack}', name))
            return bad, obs, P
        lo, hi = 0, P + slack
        for _ in range(14):
            if bad or hi - lo < 2000:
                break
            mid = (lo + hi) // 2
            if attempt(mid):
                hi = mid
            else:
                lo = mid
        S = hi
        if not bad and S < Plow - slack:
            bad.append((f'mem:{name}:uncharged', f'{name} needs {Plow} bytes and still succeeds with --max-memory {S}', name))
        for _ in range(4):
            N = rng.choice([0, 1, 1000, S - 1, S // 2, rng.randrange(S)])
            attempt(N)
        for N in (S, S + 1, (1 << 63), (1 << 64) - 1):
            if not attempt(N):
                bad.append((f'mem:{name}:monotone', f'{name}: enough with --max-memory {S}, not with {N}', name))
        return bad[:3], obs, P
    finally:
        shutil.rmtree(d, ignore_errors=True)


VALUES = ['0', '1', '2', '7', '255', '65535', '2147483647', '2147483648', '4294967294', '4294967295', '4294967296', '4294967297', '9223372036854775808',
          '18446744073709551615', '18446744073709551616', '99999999999999999999999', '-1', '-4294967295', 'abc', '', '0x10', '1e9', ' 9', '9 ', '07']


def extremes(c, exes, d):
    """Whatever is given as a limit, the command ends in order, and a value
    which was accepted means what it says."""
    m = W.Module()
    m.memory(1, 3)
    m.global_(I32, False, i32c(3))
    f = m.func([I32], [I32])
    m.set_body(f, [], lget(0) + b'\x04\x7f' + lget(0) + i32c(1) + b'\x6b' + call(f) + i32c(1) + b'\x6a' + W.ELSE + i32c(0) + END)
    m.export('f', 0, f)
    p = os.path.join(d, 'x.wasm')
    open(p, 'wb').write(m.encode())
    n = 0
    for opt, need in (('--max-frames', 41), ('--max-stack-cells', 2), ('--max-memory', 10000)):
        for v in VALUES:
            for cfg, exe in exes:
                rc, out, err = 0, '', ''
                try:
                    r = subprocess.run([exe, opt, v, '--load', p, '--invoke', 'f 40'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=tool_env(), timeout=60)
                    rc, out, err = r.returncode, r.stdout.decode(), r.stderr.decode('utf-8', 'replace')
                except subprocess.TimeoutExpired:
                    rc = 'hang'
                n += 1
                c.evaluations += 1
                good = 'Result: 40:i32' in out
                num = int(v) if re.fullmatch(r'\d+', v) else None
                key = f'value:{opt}:{v}'
                c.distinct(key + str(good))
                if rc not in (0, 1) or 'Assertion' in err or 'Sanitizer' in err:
                    c.violation(key, f'{cfg} {opt} {v!r}: {crash_summary(err, rc)} {out[-200:]}', [opt, v])
                elif good != (rc == 0):
                    c.violation(key, f'{cfg} {opt} {v!r}: exit status {rc} with output {out!r}', [opt, v])
                elif good and num is not None and num < need and opt != '--max-memory':
                    c.violation(key, f'{cfg} {opt} {v!r}: succeeds though it needs {need}', [opt, v])
                elif not good and num is not None and need <= num < 1 << 32:
                    c.violation(key, f'{cfg} {opt} {v!r}: fails though it needs {need}: {out} {err[-300:]}', [opt, v])
                elif not good and 'stack overflow' in out and (num is not None and num >= need or v in ('abc', '', '-1', '1e9')):
                    c.violation(key, f'{cfg} {opt} {v!r}: was taken for a smaller limit', [opt, v])
    return n


def main(c):
    global SCRATCH
    c.rule = 'distinct (limit kind, outcome, need, entry), thread, memory and option value cases'
    SCRATCH = scratch_dir('vp-c11-')
    build.build_many(['asan', 'rel'])
    exes = [(k, build.cli(k)) for k in ('rel', 'asan')]
    lib = os.path.join(VERIF, '.build', 'memtrack.so')
    os.makedirs(os.path.dirname(lib), exist_ok=True)
    r = subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', lib, os.path.join(VERIF, 'harness', 'memtrack.c')], capture_output=True)
    if r.returncode:
        raise Inconclusive(r.stderr.decode())
    N = c.scale(1500, 20000)
    exact = depths = 0
    outs = {}
    wl = mem_workloads()
    with cf.ThreadPoolExecutor(NPROC) as ex:
        ms = []
        for name, (data, inv) in wl.items():
            ms.append((name, ex.submit(memcase, name, data, inv, exes[0][1], lib, c.seed)))
        # loading again and again gives back what earlier loads took
        data, inv = wl['functions']
        ms.append(('reload', ex.submit(memcase, 'reload', data, inv, exes[0][1], lib, c.seed,
                                       [':module a load WASM', ':module a invoke f 5', ':init'] * 6)))
        data, inv = wl['frames']
        ms.append(('recall', ex.submit(memcase, 'recall', data, inv, exes[0][1], lib, c.seed,
                                       [':module a load WASM'] + [':module a invoke f 60000'] * 8)))
        fs = [ex.submit(program, c.seed, i, exes, c.tier) for i in range(N)]
        for f in fs:
            n, bad, seen, info = f.result()
            c.evaluations += n
            exact += info['exact']
            depths = max(depths, info['depth'])
            outs[info['via'], info['out']] = outs.get((info['via'], info['out']), 0) + 1
            for s in seen:
                c.distinct(s)
            for key, what, rp in bad:
                if len(c.violations) < 12:
                    c.violation(key, what, rp)
        table = {}
        for name, f in ms:
            bad, obs, P = f.result()
            c.evaluations += len(obs)
            ok = [N for N, _, o in obs if o]
            table[name] = f'heap {P}, enough {min(ok) if ok else None}, {len(obs)} limits'
            for o in obs:
                c.distinct((name, o[2], o[0]))
            for key, what, rp in bad:
                c.violation(key, what, rp)
    c.coverage['programs'] = N
    c.coverage['programs_with_exact_cells'] = exact
    c.coverage['deepest'] = depths
    c.coverage['outcomes'] = {f'{a}/{b}': v for (a, b), v in outs.items()}
    c.coverage['memory'] = table
    c.coverage['thread_runs'] = threads(c, exes, SCRATCH)
    c.coverage['option_values'] = extremes(c, exes, SCRATCH)
    c.sample(table)
    c.log(outs, table)


if __name__ == '__main__':
    run_check('C11', main)
