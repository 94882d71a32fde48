"""C27: host functions.

Random graphs of functions, each implemented by one of two linked guest
modules or by the embedder (harness/host.c), with random signatures over all
value types, calling each other directly, through the table, by reference and
by tail calls, up to deep recursion.  The host functions log the arguments
they see, the results of the calls they make, the guest memory they read and
the function pointers they resolve; they also write guest memory, fail, trap
and ask to be called again.  A Python model of the graph gives the whole log,
the outcome of each call and the guest memory after it.  Everything runs with
and without interruptions at random points, in several builds."""
import concurrent.futures as cf
import os
import random
import struct
import subprocess
import sys
import zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import NPROC, Inconclusive, crash_summary, run_check, scratch_dir, tool_env  # noqa: E402
from vp.wasm import DROP, ELSE, END, EXTERNREF, F32, F64, FUNCREF, I32, I64, UNREACHABLE, V128, call, i32c, i64c, leb_u, lget, lset, vec  # noqa: E402

sys.setrecursionlimit(50000)
PAGE = 65536
NUM = [I32, I64, F32, F64]
ALL = NUM + [V128, FUNCREF, EXTERNREF]
LETTER = {I32: 'i', I64: 'I', F32: 'f', F64: 'F', V128: 'v', FUNCREF: 'c', EXTERNREF: 'e'}
BITS = {I32: 32, F32: 32, I64: 64, F64: 64, V128: 128}
SPECIAL = {32: [0, 1, 0xffffffff, 0x80000000, 0x7fa00001, 0xff800001, 0x7fffffff],
           64: [0, 1, (1 << 64) - 1, 1 << 63, 0x7ff4000000000001, 0xfff0000000000001, 0xffffffff, 1 << 32],
           128: [0, (1 << 128) - 1, 1, 1 << 127, 0x000102030405060708090a0b0c0d0e0f]}


class TooBig(Exception):
    pass


class Thrown(Exception):
    pass


class Stop(Exception):
    """a trap (T name) or an error (E n)"""


def zero(t):
    return None if t in (FUNCREF, EXTERNREF) else 0


class Graph:
    def __init__(self, rng, eh=True):
        self.rng = rng
        self.eh = eh and rng.random() < 0.5
        self.deep = rng.random() < 0.15
        self.pages = rng.choice([1, 1, 2])
        self.maxpages = self.pages + rng.choice([0, 1, 2])
        n = rng.randint(2, 5) if self.deep else rng.randint(2, 10)
        pool = [self.sig() for _ in range(rng.randint(1, 4))]
        if self.deep:
            pool = [([I32] + p[:5], r[:5]) for p, r in pool]
        self.F = []
        weights = rng.choice([(1, 1, 2), (1, 1, 1), (2, 1, 4), (1, 0, 1), (0, 1, 1)])
        for i in range(n):
            p, r = rng.choice(pool)
            self.F.append(dict(kind=rng.choices('ABH', weights)[0], params=p, results=r))
        self.start = None
        if rng.random() < 0.2:
            self.start = rng.randrange(n)
            self.F[self.start].update(params=[], results=[])
        self.F[rng.randrange(n)]['kind'] = 'H'
        if self.start is not None and self.F[self.start]['kind'] == 'B':
            self.F[self.start]['kind'] = 'A'
        for i, f in enumerate(self.F):
            self.body(i, f)

    def sig(self):
        rng = self.rng
        tys = rng.choice([NUM, ALL, ALL, [I32, I64], [V128, I32]])
        sizes = [0, 1, 1, 2, 3, 5, 8, 16, 40] if rng.random() < 0.95 else [120, 250]
        p = [rng.choice(tys) for _ in range(rng.choice(sizes))]
        r = [rng.choice(tys) for _ in range(rng.choice(sizes))]
        if rng.random() < 0.5:
            p = [I32] + p
        return p, r

    def val(self, t, lt, const=0.4):
        """an operand of type t given the local types"""
        rng = self.rng
        c = [k for k, x in enumerate(lt) if x == t]
        if c and rng.random() > const:
            return ('l', rng.choice(c))
        return self.constant(t)

    def constant(self, t):
        rng = self.rng
        if t == FUNCREF:
            return ('n',) if rng.random() < 0.2 else ('f', rng.randrange(len(self.F)))
        if t == EXTERNREF:
            return ('n',)
        b = BITS[t]
        return ('x', rng.choice(SPECIAL[b]) if rng.random() < 0.3 else rng.getrandbits(b))

    def args(self, j, lt):
        a = []
        for k, t in enumerate(self.F[j]['params']):
            if k == 0 and t == I32 and self.rng.random() < 0.9:
                a.append(('x', self.rng.choice([0, 0, 1, 2, 3])))
            else:
                a.append(self.val(t, lt))
        return a

    def addr(self, ln, align):
        rng = self.rng
        size = self.pages * PAGE
        k = rng.random()
        if k < 0.7:
            a = rng.randrange(max(1, size - min(ln, size) + 1))
            if rng.random() < 0.9:
                a -= a % align
            return a
        if k < 0.85:
            return max(0, size - min(ln, size) + rng.choice([-align, 0, 0, 0, 1, align]))
        if k < 0.93:
            return (size + rng.choice([0, 1, 8, PAGE - 1, PAGE])) & 0xffffffff
        return rng.choice([0xffffffff, 0x80000000, 0xfffffff0, 0xffff0000, (-ln) & 0xffffffff])

    def body(self, i, f):
        rng = self.rng
        n = len(self.F)
        host = f['kind'] == 'H'
        lt = list(f['params'])
        st = []
        if host and rng.random() < 0.15:
            st.append(('again', rng.randint(1, 3), rng.randrange(2)))
        nst = rng.choice([0, 1, 1, 2, 2, 3, 4])
        if self.deep:
            nst = rng.choice([1, 1, 2])
        for s in range(nst):
            if len(lt) > 700:
                break   # host.c keeps up to 1024
            k = rng.random()
            if k < 0.55 or (self.deep and s == 0):
                recs = [j for j in range(n) if self.F[j]['params'][:1] == [I32]]
                ups = list(range(i + 1, n))
                if recs and f['params'][:1] == [I32] and (self.deep and s == 0 or rng.random() < 0.3):
                    j = rng.choice(recs)
                    a = self.args(j, lt)
                    a[0] = ('-',)
                    st.append(('rec', j, a, rng.randrange(5), rng.randrange(2)))
                elif ups:
                    j = rng.choice(ups)
                    st.append(('call', j, self.args(j, lt), rng.randrange(5), rng.randrange(2)))
                else:
                    continue
                lt += self.F[j]['results']
            elif k < 0.62 and host and FUNCREF in lt:
                ups = list(range(i + 1, n))
                if not ups:
                    continue
                j = rng.choice(ups)
                st.append(('callref', rng.choice([x for x, t in enumerate(lt) if t == FUNCREF]), j, self.args(j, lt)))
                lt += self.F[j]['results']
            elif k < 0.85:
                ln = rng.choice([0, 1, 1, 2, 4, 7, 8, 16, 100, 1000, PAGE - 1, PAGE, PAGE * 2, 0xffffffff, 0x80000000]
                                if rng.random() < 0.4 else [1, 4, 8, 40])
                align = rng.choice([1, 1, 2, 4, 8]) if host else 1
                if rng.random() < 0.5:
                    if not host:
                        ln = 1
                    st.append(('in', self.addr(ln, align), ln, align, rng.randrange(2)))
                    lt.append(I32)
                else:
                    st.append(('out', self.addr(ln, align), ln, align, rng.randrange(256)))
            elif host:
                j = rng.randrange(n)
                x = j if rng.random() < 0.7 else rng.choice([rng.randrange(n), n, n + 1, n + 2, n + 100, 0xffffffff])
                st.append(('deref', x, j))
            else:
                st.append(('grow', rng.choice([0, 1, 1, 5])))
                lt.append(I32)
        k = rng.random()
        same = [j for j in range(i + 1, n) if (self.F[j]['params'], self.F[j]['results']) == (f['params'], f['results'])]
        same2 = [j for j in range(i + 1, n) if self.F[j]['results'] == f['results']]
        flags = '-'
        if host and rng.random() < 0.06:
            flags = rng.choice(['m', 't', 'mt'])
        if k < 0.05:
            fin = rng.choice([('trap',), ('err', rng.choice([5, 12, 28, 75, 1]))]) if host else ('unreach',)
        elif k < 0.12 and self.eh and not host:
            fin = ('throw',)
        elif k < 0.3 and host and same:
            fin = ('tail', rng.choice(same), None)
        elif k < 0.3 and not host and same2:
            j = rng.choice(same2)
            fin = ('tail', j, self.args(j, lt), rng.randrange(2))
        else:
            fin = ('ret', [self.val(t, lt, 0.2) for t in f['results']])
        f.update(stmts=st, fin=fin, lt=lt, flags=flags)

    # ---- model

    def reset(self):
        self.mem = bytearray(PAGE * self.pages)
        self.cur = self.pages
        for a, b in self.data():
            self.mem[a:a + len(b)] = b
        self.log = []
        self.calls = 0
        self.depth = 0
        self.maxdepth = 0
        self.seen = set()

    def data(self):
        return [(0, b'start of memory'), (1000, bytes(range(256))), (PAGE * self.pages - 9, b'the end..')]

    @staticmethod
    def fmt(v, t):
        if v is None:
            return 'n'
        if t == FUNCREF:
            return f'f{v}'
        if t == V128:
            return 'x%032x' % v
        return 'x%x' % v

    def ev(self, a, l):
        if a[0] == 'l':
            return l[a[1]]
        if a[0] == 'n':
            return None
        if a[0] == '-':
            return (l[0] - 1) & 0xffffffff
        return a[1]

    def run(self, i, args):
        self.calls += 1
        if self.calls > 1500:
            raise TooBig
        f = self.F[i]
        host = f['kind'] == 'H'
        l = list(args)
        if host:
            self.log.append(' '.join([f'H {i}'] + [self.fmt(v, t) for v, t in zip(args, f['params'])]))
            if len(self.log) > 3000:
                raise TooBig
        self.depth += 1
        self.maxdepth = max(self.maxdepth, self.depth)
        if self.depth > 600:
            raise TooBig
        for s in f['stmts']:
            k = s[0]
            if k in ('call', 'rec', 'callref'):
                if k == 'callref':
                    r, j, sa = l[s[1]], s[2], s[3]
                    ok = r is not None and (self.F[r]['params'], self.F[r]['results']) == (self.F[j]['params'], self.F[j]['results'])
                    tgt = r
                else:
                    j, sa = s[1], s[2]
                    ok = k == 'call' or l[0] != 0
                    tgt = j
                if not ok:
                    l += [zero(t) for t in self.F[j]['results']]
                    continue
                a = [self.ev(x, l) for x in sa]
                self.seen.add((f['kind'], self.F[tgt]['kind'], k, s[3] if k != 'callref' and not host else 0))
                d = self.depth
                try:
                    r = self.run(tgt, a)
                except Thrown:
                    self.depth = d
                    self.seen.add(('thrown', f['kind']))
                    if host:
                        raise Stop('T uncaught')
                    if s[3] != 4 or not self.eh:
                        raise
                    r = [zero(t) for t in self.F[j]['results']]
                if host:
                    self.log.append(' '.join(['B'] + [self.fmt(v, t) for v, t in zip(r, self.F[j]['results'])]))
                l += r
            elif k == 'in':
                a, ln = s[1], s[2]
                self.access(f, host, a, ln, s[3])
                if host:
                    c = zlib.crc32(self.mem[a:a + ln])
                    self.log.append('M %x' % c)
                    l.append(c)
                else:
                    l.append(self.mem[a])
            elif k == 'out':
                a, ln = s[1], s[2]
                self.access(f, host, a, ln, s[3])
                self.mem[a:a + ln] = bytes([s[4]]) * ln
            elif k == 'grow':
                if self.cur + s[1] <= self.maxpages:
                    l.append(self.cur)
                    self.cur += s[1]
                    self.mem += bytes(PAGE * s[1])
                else:
                    l.append(0xffffffff)
            elif k == 'deref':
                x, j = s[1], s[2]
                if 't' in f['flags']:
                    raise Stop('T no-table')
                if x >= len(self.F) + 2:
                    raise Stop('T call-oob')
                if x >= len(self.F):
                    raise Stop('T call-null')
                if (self.F[x]['params'], self.F[x]['results']) != (self.F[j]['params'], self.F[j]['results']):
                    raise Stop('T call-type')
                self.log.append(f'P f{x}')
                self.seen.add('deref')
        fin = f['fin']
        self.seen.add((f['kind'], fin[0]))
        if fin[0] == 'trap':
            raise Stop(f'T misc host function {i}')
        if fin[0] == 'err':
            raise Stop(f'E {fin[1]}')
        if fin[0] == 'unreach':
            raise Stop('T unreachable')
        if fin[0] == 'throw':
            raise Thrown
        if fin[0] == 'tail':
            r = self.run(fin[1], list(args) if host else [self.ev(x, l) for x in fin[2]])
        else:
            r = [self.ev(x, l) for x in fin[1]]
        self.depth -= 1
        return r

    def access(self, f, host, a, ln, align):
        if host:
            if a % align:
                raise Stop('T unaligned')
            if 'm' in f['flags']:
                raise Stop('T no-memory')
        if a + ln > len(self.mem):
            raise Stop('T oob-memory')

    def invoke(self, i, args):
        self.depth = 0
        try:
            r = self.run(i, args)
            return ' '.join(['R'] + [self.fmt(v, t) for v, t in zip(r, self.F[i]['results'])])
        except Thrown:
            return 'T uncaught'
        except Stop as e:
            return str(e)

    # ---- encoding

    def modules(self):
        F = self.F
        n = len(F)
        A, B = W.Module(), W.Module()
        bm = B.memory(self.pages, self.maxpages)
        bt = B.table(FUNCREF, n + 2)
        B.export('memory', 2, bm)
        B.export('__indirect_function_table', 1, bt)
        for a, b in self.data():
            B.datas.append(b'\x00' + i32c(a) + END + leb_u(len(b)) + b)
        self.bi = {}
        for i, f in enumerate(F):
            if f['kind'] == 'B':
                self.bi[i] = B.func(f['params'], f['results'])
                B.export(f'f{i}', 0, self.bi[i])
        self.ai = {}
        order = list(range(n))
        self.rng.shuffle(order)
        for i in order:
            f = F[i]
            if f['kind'] == 'H':
                self.ai[i] = A.import_func('h', str(i), f['params'], f['results'])
            elif f['kind'] == 'B':
                self.ai[i] = A.import_func('b', f'f{i}', f['params'], f['results'])
        A.import_('b', 'memory', 2, W.limits(self.pages, self.maxpages))
        A.import_('b', '__indirect_function_table', 1, bytes([W.VT[FUNCREF]]) + W.limits(n + 2))
        for i in order:
            f = F[i]
            if f['kind'] == 'A':
                self.ai[i] = A.func(f['params'], f['results'])
        A.elems.append(b'\x00' + i32c(0) + END + vec(leb_u(self.ai[i]) for i in range(n)))
        if self.eh:
            A.tag([])
            B.tag([])
        for m, k, idx in ((A, 'A', self.ai), (B, 'B', self.bi)):
            for i, f in enumerate(F):
                if f['kind'] == k:
                    m.set_body(idx[i], f['lt'][len(f['params']):] + [I32], self.code(m, k, f))
        if self.start is not None:
            A.start = self.ai[self.start]
        return A.encode(), B.encode()

    def push(self, a, t, k):
        if a[0] == 'l':
            return lget(a[1])
        if a[0] == '-':
            return lget(0) + i32c(1) + b'\x6b'
        if a[0] == 'f':
            if k == 'A' and a[1] % 2:
                return b'\xd2' + leb_u(self.ai[a[1]])
            return i32c(a[1]) + b'\x25\x00'
        if a[0] == 'n':
            return W.const(t, 0)
        return W.const(t, a[1])

    def code(self, m, k, f):
        F = self.F
        nl = len(f['params'])
        out = b''
        sentinel = 0x1122334455667788

        def docall(j, args, indirect, tail=False):
            g = F[j]
            b = b''.join(self.push(a, t, k) for a, t in zip(args, g['params']))
            if k == 'A' and not indirect:
                return b + (b'\x12' if tail else b'\x10') + leb_u(self.ai[j])
            return b + i32c(j) + (b'\x13' if tail else b'\x11') + leb_u(m.type(g['params'], g['results'])) + b'\x00'

        for s in f['stmts']:
            if s[0] in ('call', 'rec'):
                j = s[1]
                g = F[j]
                sentinel += 0x0101010101010101
                b = i64c(sentinel) + docall(j, s[2], s[4])
                b += b''.join(lset(nl + x) for x in reversed(range(len(g['results']))))
                b += i64c(sentinel) + b'\x52\x04\x40' + UNREACHABLE + END
                nl += len(g['results'])
                w = s[3]
                if w == 1:
                    b = b'\x02\x40' + b + END
                elif w == 2:
                    b = b'\x03\x40' + b + END
                elif w == 3:
                    b = i32c(1) + b'\x04\x40' + b + ELSE + UNREACHABLE + END
                elif w == 4 and self.eh:
                    b = b'\x02\x40\x1f\x40\x01\x02\x00' + b + END + END
                if s[0] == 'rec':
                    b = lget(0) + b'\x04\x40' + b + END
                out += b
            elif s[0] == 'in':
                out += i32c(s[1]) + b'\x2d\x00\x00' + lset(nl)
                nl += 1
            elif s[0] == 'out':
                out += i32c(s[1]) + i32c(s[4]) + i32c(s[2]) + b'\xfc\x0b\x00'
            elif s[0] == 'grow':
                out += i32c(s[1]) + b'\x40\x00' + lset(nl)
                nl += 1
        fin = f['fin']
        if fin[0] == 'unreach':
            return out + UNREACHABLE
        if fin[0] == 'throw':
            return out + b'\x08\x00'
        if fin[0] == 'tail':
            return out + docall(fin[1], fin[2], fin[3], True)
        return out + b''.join(self.push(a, t, k) for a, t in zip(fin[1], f['results']))

    def host_lines(self):
        out = []

        def tok(a):
            if a[0] == 'l':
                return f'l{a[1]}'
            if a[0] == 'n' or a[0] == '-':
                return a[0]
            if a[0] == 'f':
                return f'f{a[1]}'
            return 'x%x' % a[1]

        def toks(args, types):
            return ''.join(' ' + ('x%032x' % a[1] if a[0] == 'x' and t == V128 else tok(a)) for a, t in zip(args, types))

        for i, f in enumerate(self.F):
            if f['kind'] != 'H':
                continue
            sig = '(' + ''.join(LETTER[t] for t in f['params']) + ')' + ''.join(LETTER[t] for t in f['results'])
            st = []
            for s in f['stmts']:
                if s[0] in ('call', 'rec'):
                    st.append(f'{s[0]} {s[1]}' + toks(s[2], self.F[s[1]]['params']))
                elif s[0] == 'callref':
                    st.append(f'callref l{s[1]} {s[2]}' + toks(s[3], self.F[s[2]]['params']))
                elif s[0] == 'in':
                    st.append('%s x%x %x %x' % ('ptr' if s[4] else 'in', s[1], s[2], s[3]))
                elif s[0] == 'out':
                    st.append('out x%x %x %x %x' % (s[1], s[2], s[3], s[4]))
                elif s[0] == 'deref':
                    st.append('deref x%x %d' % (s[1], s[2]))
                elif s[0] == 'again':
                    st.append('again %d %d' % s[1:])
            fin = f['fin']
            if fin[0] == 'ret':
                st.append('ret' + toks(fin[1], f['results']))
            else:
                st.append(' '.join(str(x) for x in fin if x is not None))
            out.append(f'host {i} {sig} {f["flags"]} {len(st)}')
            out += st
        return out


def make(rng):
    """(script, expected lines, facts) or None"""
    g = Graph(rng)
    g.reset()
    exp = []
    a, b = g.modules()
    s = ['case'] + g.host_lines() + ['load b ' + b.hex(), 'ready'] + [f'fidx {i} {j}' for i, j in sorted(g.ai.items())] + ['load a ' + a.hex()]
    try:
        exp.append('S')
        if g.start is not None:
            r = g.invoke(g.start, [])
            exp += g.log
            exp.append('S' if r[0] == 'R' else r)
        else:
            exp.append('S')
        for _ in range(rng.randint(2, 5)):
            i = rng.randrange(len(g.F)) if rng.random() < 0.5 else 0
            args = []
            for k, t in enumerate(g.F[i]['params']):
                if k == 0 and t == I32:
                    v = rng.choice([0, 1, 2, 3]) if not g.deep else rng.choice([5, 30, 100, 250])
                elif t == EXTERNREF:
                    v = None if rng.random() < 0.2 else rng.getrandbits(64) or 1
                else:
                    c = g.constant(t)
                    v = None if c[0] == 'n' else c[1]
                args.append(v)
            g.log = []
            r = g.invoke(i, args)
            exp += g.log + [r, 'D %x %d' % (zlib.crc32(g.mem), g.cur)]
            s.append(f'invoke {i}' + ''.join(' ' + g.fmt(v, t) for v, t in zip(args, g.F[i]['params'])))
    except TooBig:
        return None
    s.append('end')
    nh = sum(1 for x in exp if x[0] == 'H')
    return dict(script=s, exp=exp, seen=g.seen, depth=g.maxdepth, hosts=nh, eh=g.eh, outcomes={x.split(' host ')[0] for x in exp if x[0] in 'TE'},
                sigs={(tuple(f['params']), tuple(f['results'])) for f in g.F if f['kind'] == 'H'})


def exe(config):
    return build.harness(config, 'host', ['host.c'])


def run(binary, cases, opts, watchdog=120):
    """outcome lines per case; a crash gives ['CRASH ...']"""
    sd = scratch_dir()
    out = [None] * len(cases)
    cnt = [(0, 0)] * len(cases)

    def shard(lo, hi):
        path = os.path.join(sd, f'h{os.path.basename(os.path.dirname(os.path.dirname(os.path.dirname(binary))))}{lo}{"-".join(opts)}')
        with open(path, 'w') as f:
            for c in cases[lo:hi]:
                f.write('\n'.join(c['script']) + '\n')
        first = 0
        tries = 0
        while first < hi - lo and tries < 6:
            tries += 1
            try:
                r = subprocess.run([binary, path, str(first)] + list(opts), capture_output=True, timeout=watchdog, env=tool_env())
                so, err, rc = r.stdout, r.stderr, r.returncode
            except subprocess.TimeoutExpired as e:
                so, err, rc = e.stdout or b'', b'', 'hang'
            cur = []
            for line in so.decode('latin1').split('\n'):
                if line.startswith('C '):
                    a = line.split()
                    out[lo + first] = cur
                    cnt[lo + first] = (int(a[2]), int(a[3]))
                    first += 1
                    cur = []
                elif line:
                    cur.append(line)
            if rc == 2:
                raise Inconclusive(f'host harness: {cur[-1:]} {err[-300:]!r}')
            if first < hi - lo:
                if rc == 0:
                    raise Inconclusive('host harness ended early')
                why = 'hang' if rc == 'hang' else 'misuse' if rc == 3 else crash_summary(err, rc)
                out[lo + first] = cur + [f'CRASH {why}']
                first += 1
            elif rc != 0:
                # leaks are reported at the end
                if hi - lo == 1:
                    out[lo] = (out[lo] or []) + [f'CRASH {crash_summary(err, rc)}']
                else:
                    out[hi - 1] = (out[hi - 1] or []) + [f'CRASH at exit: {crash_summary(err, rc)}']
        os.unlink(path)

    step = max(1, (len(cases) + NPROC * 2 - 1) // (NPROC * 2))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda lo: shard(lo, min(lo + step, len(cases))), range(0, len(cases), step)))
    return out, cnt


def differs(exp, got):
    for i in range(max(len(exp), len(got))):
        e = exp[i] if i < len(exp) else '(nothing)'
        g = got[i] if i < len(got) else '(nothing)'
        if e == g:
            continue
        if e.startswith('T '):
            if e.startswith('T misc '):
                if g.startswith('T misc ') and e[7:] in g:
                    continue
            elif g.split(' ')[:2] == e.split(' ')[:2]:
                continue
        return i, e, g
    return None


def main(c):
    c.rule = 'a graph of guest and host functions, run in one build with one interruption pattern, distinct by script and pattern'
    configs = ['asan', 'rel', 'dbg', 'msan', 'v1', 'v3'] + (['v2', 'v7', 'v8', 'v9', 'v6'] if c.tier == 'thorough' else [])
    build.build_many(configs)
    with cf.ThreadPoolExecutor(4) as ex:
        exes = dict(zip(configs, ex.map(exe, configs)))
    n = c.scale(2500, 20000)
    cases = []
    big = 0
    rng = c.sub_rng('graphs')
    while len(cases) < n:
        g = make(random.Random(rng.getrandbits(64)))
        if g is None:
            big += 1
            continue
        cases.append(g)
    seen, outcomes, sigs = {}, {}, set()
    for g in cases:
        for k in g['seen']:
            seen[k] = seen.get(k, 0) + 1
        for k in g['outcomes']:
            outcomes[k] = outcomes.get(k, 0) + 1
        sigs |= g['sigs']
    nintr = ncb = nh = 0
    for config in configs:
        pats = [(), (f'intr={rng.getrandbits(31)}',)]
        if config in ('asan', 'dbg') or c.tier == 'thorough':
            pats.append((f'intr={rng.getrandbits(31)}',))
        use = [g for g in cases if not g['eh'] or config not in ('v1', 'v2', 'v5')]
        if config in ('msan', 'v1', 'v3') and c.tier == 'quick':
            use = use[:len(use) // 2]
        for opts in pats:
            got, cnt = run(exes[config], use, opts)
            for g, r, k in zip(use, got, cnt):
                if r is None:
                    continue
                c.evaluations += 1
                c.distinct((g['script'][-2], g['script'][1], opts, config))
                nintr += k[0]
                ncb += k[1]
                nh += g['hosts']
                d = differs(g['exp'], r)
                if d is None:
                    continue
                # once more on its own
                r2, _ = run(exes[config], [g], opts)
                d2 = differs(g['exp'], r2[0])
                if d2 is None:
                    if 'CRASH at exit' in d[2]:
                        bad = None
                        for g2 in use:
                            x, _ = run(exes[config], [g2], opts)
                            if differs(g2['exp'], x[0]):
                                bad = g2
                                break
                        if bad is not None:
                            continue
                    if 'CRASH hang' in d[2]:
                        continue
                    raise Inconclusive(f'{config} {opts}: not reproduced: {d}')
                i, e, x = d2
                what = 'crash' if x.startswith('CRASH') else 'api' if x.startswith('!') else f'{e[:1]}'
                c.violation(f'{config}:{what}', f'{config} {" ".join(opts)}: line {i}: expected "{e[:200]}", got "{x[:300]}"',
                            '\n'.join(g['script']) + '\n--- expected\n' + '\n'.join(g['exp']) + '\n--- got\n' + '\n'.join(r2[0]) + '\n')
                if len(c.violations) > 8:
                    return
    if nintr < 1000 or ncb < 1000:
        raise Inconclusive('too few interrupts or call-backs')
    c.coverage.update(graphs=len(cases), too_big=big, host_signatures=len(sigs), host_calls_judged=nh, callbacks=ncb, interrupts=nintr,
                      deepest=max(g['depth'] for g in cases), outcomes={str(k): v for k, v in sorted(outcomes.items())},
                      edges={str(k): v for k, v in sorted(seen.items(), key=str)}, builds=configs)
    for g in cases[:3]:
        c.sample(g['exp'][:6])
    c.assumptions.append('exceptions which reach a host function end in the uncaught exception trap')


if __name__ == '__main__':
    run_check('C27', main)
