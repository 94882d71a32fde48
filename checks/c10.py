"""C10: after a trap, uncaught exception, exhausted stack or exit the effects
already made stay and the instances keep working.  Programs made of numbered
effects spread over two linked modules stop at a chosen effect for a chosen
reason; the state is read back after each call and compared with V8."""
import os
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, causes, diff, progcheck  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import run_check, tool_env  # noqa: E402
from vp.wasm import DROP, END, EXTERNREF, FUNCREF, I32, I64, UNREACHABLE, V128, br, call, gget, gset, i32c, i64c, leb_u, lget, lset, ltee, vec  # noqa: E402

KINDS = ['unreachable', 'div0', 'divov', 'load', 'store', 'tget', 'inull', 'isig', 'ioob', 'throw', 'recurse', 'trunc', 'thrownull', 'exit', 'fill',
         'tinit', 'minit', 'throwv', 'recurse2', 'recursetry', 'exit0']
NEVER = 1000000
OPTS = ['--wasi', '--max-frames', '500', '--max-stack-cells', '6000']


def kind_body(k, M):
    """Code which ends the call."""
    m = M
    if k == 'unreachable':
        return UNREACHABLE
    if k == 'div0':
        return i32c(7) + i32c(0) + b'\x6d' + DROP
    if k == 'divov':
        return i64c(-1 << 63) + i64c(-1) + b'\x7f' + DROP
    if k == 'load':
        return i32c(-1) + b'\x28' + W.memarg(2, 0) + DROP
    if k == 'store':
        return i32c(65533) + i64c(0x0101010101010101) + b'\x37' + W.memarg(3, 4) + UNREACHABLE
    if k == 'tget':
        return i32c(99) + b'\x25\0' + DROP
    if k == 'inull':
        return i32c(9) + b'\x11' + leb_u(m.v) + b'\0'
    if k == 'isig':
        return i32c(8) + b'\x11' + leb_u(m.v) + b'\0'
    if k == 'ioob':
        return i32c(1000) + b'\x11' + leb_u(m.v) + b'\0'
    if k == 'throw':
        return b'\x08' + leb_u(m.x0)
    if k == 'throwv':
        return i64c(77) + b'\x08' + leb_u(m.x1)
    if k == 'recurse':
        return call(m.rec)
    if k == 'recurse2':
        return i64c(1) + i64c(2) + call(m.rec2) + DROP
    if k == 'recursetry':
        return call(m.rec3)
    if k == 'trunc':
        return W.const(W.F64, 0x7ff8000000000000) + b'\xaa' + DROP
    if k == 'thrownull':
        return b'\xd0\x69\x0a'
    if k == 'exit':
        return i32c(77) + call(m.exit) + UNREACHABLE
    if k == 'exit0':
        return i32c(0) + call(m.exit) + UNREACHABLE
    if k == 'fill':
        return i32c(65530) + i32c(1) + i32c(70000) + b'\xfc\x0b\0'
    if k == 'tinit':
        return i32c(6) + i32c(0) + i32c(9) + b'\xfc\x0c' + leb_u(m.eseg) + b'\0'
    if k == 'minit':
        return i32c(0) + i32c(1) + i32c(9) + b'\xfc\x08' + leb_u(m.dseg) + b'\0'
    raise ValueError(k)


class Mod:
    def __init__(self, r, nm, other=None):
        self.r, self.nm, self.other = r, nm, other
        m = self.m = W.Module()
        self.v = m.type([], [])
        self.exit = m.import_func('wasi_snapshot_preview1', 'proc_exit', [I32], [])
        self.ext, self.costs = [], {}
        if other:
            for f in r.sample(other.fnames, min(len(other.fnames), r.randint(1, 3))):
                self.ext.append(m.import_func('A', f, [], []))
                self.costs[self.ext[-1]] = other.costs[other.fs[int(f[1:])]]
            m.import_('A', 'm', 2, W.limits(1, None))
            m.import_('A', 't', 1, bytes([W.VT[FUNCREF]]) + W.limits(10, None))
            self.n = m.import_('A', 'n', 3, bytes([W.VT[I32], 1]))
            self.trig = m.import_('A', 'trig', 3, bytes([W.VT[I32], 1]))
            self.kind = m.import_('A', 'kind', 3, bytes([W.VT[I32], 1]))
            self.h = m.import_('A', 'h', 3, bytes([W.VT[I64], 1]))
            self.x0 = m.import_('A', 'x0', 4, leb_u(m.type([], [])))
        else:
            m.memory(1, None)
            m.table(FUNCREF, 10, None)
            self.n = m.global_(I32, True, i32c(0))
            self.trig = m.global_(I32, True, i32c(NEVER))
            self.kind = m.global_(I32, True, i32c(0))
            self.h = m.global_(I64, True, i64c(1))
            self.x0 = m.tag([])
            for nm_, k, i in (('m', 2, 0), ('t', 1, 0), ('n', 3, self.n), ('trig', 3, self.trig), ('kind', 3, self.kind), ('h', 3, self.h),
                              ('x0', 4, self.x0)):
                m.export(nm_, k, i)
        self.x1 = m.tag([I64])
        self.priv = m.global_(I64, True, i64c(5))
        self.pv = m.global_(V128, True, W.const(V128, 3))
        self.t2 = m.table(EXTERNREF, 4, 40)
        m.memory(1, 3)
        self.eseg, self.dseg = 1, 0
        m.datas.append(b'\1' + vec([b'a', b'b', b'c']))
        m.datacount = 1
        bad = m.func([I32], [], [], b'')
        self.nop = m.func([], [], [], b'')
        m.elems.append(b'\2\0' + i32c(0 if not other else 4) + END + b'\0' + vec(leb_u(self.nop) for _ in range(4)))
        m.elems.append(b'\1\0' + vec([leb_u(self.nop)]))
        if not other:
            m.elems.append(b'\2\0' + i32c(8) + END + b'\0' + vec([leb_u(bad)]))
        base = m.nfuncs() if hasattr(m, 'nfuncs') else m.nimp[0] + len(m.funcs)
        self.rec = m.func([], [], [], call(base))
        self.rec2 = m.func([I64, I64], [I64], [V128, I64], lget(0) + lget(1) + lget(0) + lget(1) + call(base + 1) + b'\x7c\x7c')
        # the recursion runs inside handlers; none of them may see the end
        self.rec3 = m.func([], [], [], b'\x02\x40\x1f\x40' + vec([b'\2\0']) + call(base + 2) + END + END)
        self.boom = m.func([], [], [], self.boom_body())
        self.site = 0
        self.fs, self.fnames = [], []
        for k in range(r.randint(2, 6)):
            self.left = r.randint(6, 22)
            self.cost, self.mul = 0, 1
            b = self.body(0)
            if self.fs and r.random() < 0.2:
                g = r.choice(self.fs + self.ext)
                b += b'\x12' + leb_u(g)
                self.cost += self.costs[g]
            f = m.func([], [], [I32, I64, I32, I32, I32, I32, I32], b)
            self.fs.append(f)
            self.costs[f] = self.cost
            self.fnames.append(f'f{k}')
            m.export(f'f{k}', 0, f)
        # replace some nops in the shared table
        m.elems.append(b'\2\0' + i32c(r.randint(0, 3) + (4 if other else 0)) + END + b'\0' + vec([leb_u(r.choice(self.fs))]))
        for k, f in enumerate(self.fs):
            m.efunc(f'r{k}', [I32, I32], [], [], i32c(0) + gset(self.n) + lget(0) + gset(self.trig) + lget(1) + gset(self.kind) + call(f))
        self.dump()

    def boom_body(self):
        n = len(KINDS)
        b = gget(self.n) + i32c(1) + b'\x6a' + gset(self.n)
        b += gget(self.n) + gget(self.trig) + b'\x46\x04\x40'
        for _ in range(n + 1):
            b += b'\x02\x40'
        b += gget(self.kind) + b'\x0e' + vec(leb_u(k) for k in range(n)) + leb_u(n)
        for k in KINDS:
            b += END + kind_body(k, self) + (UNREACHABLE if not k.startswith('throw') else b'')
        return b + END + END

    def effect(self):
        r = self.r
        self.site += 1
        s = self.site + (1000 if self.other else 0)
        b = call(self.boom)
        b += gget(self.h) + i64c(s) + b'\x85' + i64c(0x9e3779b97f4a7c15 - (1 << 64)) + b'\x7e' + i64c(13) + b'\x89' + gset(self.h)
        k = r.random()
        if k < 0.25:
            b += i32c(8 * r.randint(0, 60)) + gget(self.h) + b'\x37' + W.memarg(3, 0, r.randint(0, 1))
        elif k < 0.35:
            b += gget(self.h) + gget(self.priv) + b'\x7c' + gset(self.priv)
        elif k < 0.42:
            b += gget(self.pv) + W.const(V128, r.getrandbits(128)) + W.fd(81) + gset(self.pv)
        elif k < 0.5:
            b += i32c(r.randint(0, 7)) + b'\xd2' + leb_u(self.nop) + b'\x26\0'
        elif k < 0.56:
            b += i32c(r.choice([0, 0, 1])) + b'\x40' + leb_u(1) + DROP
        elif k < 0.6:
            b += b'\xd0\x6f' + i32c(1) + b'\xfc\x0f' + leb_u(self.t2) + DROP
        elif k < 0.65:
            b += i32c(r.randint(0, 400)) + i32c(r.getrandbits(8)) + i32c(r.randint(0, 30)) + b'\xfc\x0b\0'
        return b

    def body(self, d):
        r = self.r
        b = b''
        for _ in range(r.randint(1, 5)):
            if self.left <= 0:
                break
            self.left -= 1
            self.cost += self.mul
            k = r.random()
            if k < 0.4 or d > 4:
                b += self.effect()
            elif k < 0.48:
                b += b'\x02\x40' + self.body(d + 1) + END
            elif k < 0.55:
                b += i32c(2) + lset(d + 2 if d < 5 else 6) + b'\x03\x40' + self.loop(d + 1) + lget(d + 2 if d < 5 else 6) + i32c(1) + b'\x6b' + \
                    ltee(d + 2 if d < 5 else 6) + b'\x0d\0' + END
            elif k < 0.6:
                b += gget(self.h) + b'\xa7' + i32c(1) + b'\x71\x04\x40' + self.body(d + 1) + b'\x05' + self.body(d + 1) + END
            elif k < 0.72:
                c = r.choice([[b'\2\0'], [b'\0' + leb_u(self.x0) + b'\0'], [b'\0' + leb_u(self.x0) + b'\0', b'\2\0']])
                b += b'\x02\x40\x1f\x40' + vec(c) + self.body(d + 1) + END + self.effect() + END
            elif k < 0.85:
                # operands kept across
                n = r.randint(1, 3)
                b += b''.join(i64c(r.getrandbits(20)) for _ in range(n)) + self.body(d + 1)
                b += b''.join(gget(self.h) + b'\x85' + gset(self.h) for _ in range(n))
            elif k < 0.93 and self.fs + self.ext:
                f = r.choice(self.fs + self.ext)
                if self.cost + self.mul * self.costs[f] < 1500:
                    self.cost += self.mul * self.costs[f]
                    b += call(f)
            else:
                b += call(self.nop)
        return b

    def loop(self, d):
        self.mul *= 2
        b = self.body(d)
        self.mul //= 2
        return b

    def dump(self):
        m = self.m

        def sumup(mem):
            return (i64c(0) + lset(1) + i32c(0) + lset(0) + b'\x03\x40' + lget(1) + i64c(0x100000001b3) + b'\x7e' + lget(0) + b'\x29' +
                    W.memarg(3, 0, mem) + b'\x85' + lset(1) + lget(0) + i32c(8) + b'\x6a' + ltee(0) + i32c(512) + b'\x49\x0d\0' + END + lget(1))
        m.efunc('dump', [], [I32, I64, I64, I64, I64, I64, I64, I32, I32, I32, I32], [I32, I64],
                gget(self.n) + gget(self.h) + gget(self.priv) + gget(self.pv) + W.fd(29) + b'\0' + gget(self.pv) + W.fd(29) + b'\1' + sumup(0) + sumup(1) + b'\x3f\1' + b'\xfc\x10' + leb_u(self.t2) +
                i32c(8) + b'\x25\0\xd1' + i32c(9) + b'\x25\0\xd1')


DUMPR = [I32, I64, I64, I64, I64, I64, I64, I32, I32, I32, I32]


def case(r, i):
    A = Mod(r, 'a')
    B = Mod(r, 'b', A)
    st = [diff.load('a', A.m.encode()), diff.register('a', 'A'), diff.load('b', B.m.encode())]
    for _ in range(r.randint(6, 14)):
        M = r.choice([A, B])
        k = r.randrange(len(M.fs))
        trig = r.choice([NEVER, r.randint(1, 6), r.randint(1, 30), r.randint(1, 150)])
        st.append(diff.invoke(M.nm, f'r{k}', [(I32, trig), (I32, r.randrange(len(KINDS)))], []))
        if r.random() < 0.3:
            st.append(diff.invoke(M.nm, r.choice(M.fnames), [], []))
        for x in 'ab':
            if r.random() < 0.7:
                st.append(diff.invoke(x, 'dump', [], DUMPR))
    st += [diff.invoke(x, 'dump', [], DUMPR) for x in 'ab']
    return st


def cmp(x, y):
    if y.startswith('exit:'):
        return x == ('noresult:' if y == 'exit:0' else 'err:' + y[5:])
    return diff.same(x, y)


def steady(c):
    """Failed calls do not accumulate memory."""
    n1, n2 = 200, c.scale(6000, 60000)
    case_ = progcheck._gen(('checks.c10', 'case', 'C10:steady', 1, {}))
    head = b''.join(diff.to_cmds(s) for s in case_[:3])
    def rss(cmd, n):
        with tempfile.TemporaryFile() as f:
            f.write(head + cmd * n)
            f.seek(0)
            p = subprocess.run(['/usr/bin/time', '-f', 'rss %M', build.cli('rel'), '--repl', '--repl-prompt', '@', *OPTS], stdin=f,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=tool_env())
        return p.returncode, int(p.stderr.rsplit(b'rss ', 1)[1])
    rows = []
    # what the REPL itself needs for as many commands
    own = {n: rss(b':module a invoke dump\n', n)[1] for n in (n1, n2, n2 // 20)}
    for k, kind in enumerate(KINDS):
        n = n2 // 20 if kind.startswith('recurse') else n2
        st, a = rss(b':module a invoke r0 1 %d\n' % k, n1)
        st2, b = rss(b':module a invoke r0 1 %d\n' % k, n)
        if st or st2:
            c.violation(f'steady:{kind}:status', f'calls ending with {kind}: status {st} {st2}', dict(kind=kind, n=n))
            return
        g = (b - a) - (own[n] - own[n1])
        rows.append((kind, n, g))
        if g > 1000 + n // 100:
            c.violation(f'steady:{kind}', f'memory grows by {g} KB over {n} calls ending with {kind}', dict(kind=kind, rss=[a, b], own=own))
        c.evaluations += n
    c.coverage['rss_growth_kb'] = {k: g for k, _, g in rows}
    c.log(f'memory after many failed calls: {rows}')


def main(c):
    build.build_many(['asan', 'rel'])
    c.rule = 'distinct (program size, outcome or state dump)'
    causes.check(c, build.cli, ('rel', 'asan'), True)
    n = c.scale(6000, 60000)
    cases = progcheck.pgen('checks.c10', 'case', f'C10:{c.seed}', n)
    ref = progcheck.run(c, cases, [('rel', OPTS, n), ('asan', OPTS, n // 3)], cmp=cmp, label='stop', shard=1)
    st = {}
    for cs, o in zip(cases, ref):
        for s, x in zip(cs, o):
            if s['op'] == 'invoke' and s['func'][0] == 'r' and s['args'][0][1] != str(NEVER):
                k = KINDS[int(s['args'][1][1])] + (' reached' if x != 'ok:' else ' not reached')
                st[k] = st.get(k, 0) + 1
    c.coverage['stops'] = st
    if any(k + ' reached' not in st for k in KINDS):
        raise RuntimeError(f'some causes never occurred: {st}')
    c.sample(dict(steps=[(s['func'], s['args'], o) for s, o in zip(cases[0], ref[0]) if s['op'] == 'invoke'][:12]))
    steady(c)


if __name__ == '__main__':
    run_check('C10', main)
