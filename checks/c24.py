"""C24: dynamic linking.

Random graphs of shared libraries are written with their own dylink.0
sections.  Each library carries a query function which reports its bases,
the addresses in its GOT, what its bound functions return, the contents of its
data area and so on; the main module can open further libraries and grow the
shared memory and table between.  A model of the load order, the symbol
resolution and the initialisation decides every answer, except the addresses,
which must be aligned, disjoint from everything else and the same everywhere."""
import concurrent.futures as cf
import os
import random
import re
import select
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import NPROC, Inconclusive, crash_summary, run_check, scratch_dir, tool_env  # noqa: E402
from vp.wasm import DROP, END, FUNCREF, I32, I64, call, gget, gset, i32c, leb_u, lget, lset, ltee, name, vec  # noqa: E402

ADD, SUB, MUL, EQZ, LTU = b'\x6a', b'\x6b', b'\x6c', b'\x45', b'\x49'
LOAD, STORE, LOAD8 = b'\x28\x02\0', b'\x36\x02\0', b'\x2d\0\0'
M32 = (1 << 32) - 1
# signatures of symbols by kind; all yield one i32 through adapt()
SIGS = [([], [I32]), ([I32, I64], [I32]), ([I64], [I32, I32]), ([], [I32])]
THROWS = 3
LAYOUT = ['__heap_base', '__heap_end', '__stack_low', '__stack_high']
LOGMAX = 300


def args(kind):
    return [b'', i32c(5) + W.i64c(9), W.i64c(1 << 40), b''][kind]


def fold(kind):
    """Result values to one i32."""
    return ADD if kind == 2 else b''


class Lib:
    def __init__(self, name_, ident):
        self.name = name_
        self.id = ident
        self.needs = []
        self.funcs = {}      # sym -> dict(kind, id, via=sym or None)
        self.alias = {}      # sym -> sym in funcs
        self.datas = {}      # sym -> (offset, value)
        self.decoys = []     # (sym, what)
        self.plt = []        # (sym, kind, weak)
        self.gotf = []       # (sym, kind, weak)
        self.gotm = []       # (sym, weak)
        self.relocs = []     # indices to gotm
        self.ctor = None     # None | '_initialize' | '__wasm_call_ctors' | 'both'
        self.traps = None    # None | 'ctor' | 'start' | 'reloc'
        self.opens = []      # names opened by the constructor
        self.start = False
        self.nelem = 0
        self.extra_tab = 0
        self.memalign = 2
        self.tabalign = 0
        self.bss = 0
        self.broken = None   # None | 'nodylink' | 'garbage' | 'align' | 'memhuge' | 'tabhuge' | 'import' | 'taboverflow'
        self.pad = 0
        self.helper = False  # gives a non-PIE main module access to dlopen


class Case:
    def __init__(self, rng, eh):
        self.rng = r = rng
        self.eh = eh
        self.pie = r.random() < 0.6
        self.page1 = self.pie and r.random() < 0.15
        self.bindnow = r.random() < 0.3
        self.wasi = r.random() < 0.5
        self.npaths = r.choice([1, 1, 2, 3])
        self.stack = r.choice([None, None, 1, 17, 4096, 70000])
        nlib = r.choice([0, 1, 2, 3, 4, 5, 6, 8])
        ndyn = r.choice([0, 1, 2, 3, 5])
        if nlib + ndyn == 0:
            nlib = 1
        base = r.choice(['lib', 'l', 'x.so', 'libverylongname' * 10, 'lib\xe9', '-', ' '])
        names = []
        while len(names) < nlib + ndyn:
            n = r.choice([base + 'ab'[r.randrange(2)] * r.randint(0, 3), base + str(r.randint(0, 20)), '.' + base, base + '.', 'n%d' % len(names)])
            if n not in names and '..' not in n and n != '.':
                names.append(n)
        self.syms = ['s%d' % i for i in range(r.choice([2, 4, 8, 12]))]
        if r.random() < 0.3:
            self.syms += ['', 'x' * 300, 's1\xe9']
        self.kind = {s: r.randrange(4 if eh else 3) for s in self.syms}
        self.dsyms = ['d%d' % i for i in range(r.choice([1, 3, 6]))] + (['s0'] if r.random() < 0.3 else [])
        self.next = r.randrange(1 << 20)
        self.main = Lib('', 0)
        self.libs = [Lib(n, i + 1) for i, n in enumerate(names)]
        self.static, self.dyn = self.libs[:nlib], self.libs[nlib:]
        if not self.pie:
            h = Lib('dlhelper', len(self.libs) + 1)
            h.helper = True
            names.append(h.name)
            self.libs.append(h)
            self.static.append(h)
        self.by_name = {x.name: x for x in self.libs}
        style = r.choice(['clean', 'clean', 'missing', 'trap'])
        self.style = style
        for L in [self.main] + self.libs:
            self.fill(L, style)
        # needs
        for i, L in enumerate([self.main] + self.static):
            for x in self.static:
                if r.random() < (0.5 if L is self.main else 0.25):
                    L.needs.append(x.name)
            if L is self.main and not self.pie and 'dlhelper' not in L.needs:
                L.needs.append('dlhelper')
            r.shuffle(L.needs)
            if L.needs and r.random() < 0.2:
                L.needs.append(r.choice(L.needs))
        for L in self.dyn:
            for x in self.libs:
                if r.random() < 0.25:
                    L.needs.append(x.name)
            r.shuffle(L.needs)
        if style == 'missing' and r.random() < 0.4:
            L = r.choice([self.main] + self.libs)
            L.needs.insert(r.randrange(len(L.needs) + 1), r.choice(['no-such-lib', '', '../' + names[0], names[0] + '\0', 'a/' + names[0]]))
        if style == 'missing' and r.random() < 0.4:
            L = r.choice(self.dyn if self.dyn and r.random() < 0.7 else self.libs)
            L.broken = r.choice(['nodylink', 'garbage', 'align', 'memhuge', 'tabhuge', 'import', 'taboverflow'])
        if style == 'trap':
            r.choice(self.dyn if self.dyn and r.random() < 0.7 else self.libs).traps = r.choice(['ctor', 'start', 'reloc'])
        if style == 'clean':
            for L in self.libs + [self.main]:
                if r.random() < 0.15:
                    L.opens = [r.choice(names + ['no-such-lib']) for _ in range(r.randint(1, 2))]
                    L.ctor = L.ctor or '_initialize'
        if style != 'missing':
            libs = [self.main] + self.expected_static()
            funcs = {x for L in libs for x in [*L.funcs, *L.alias]}
            datas = {x for L in libs for x in L.datas}
            for L in [self.main] + self.libs:
                for n in sorted({x[0] for x in L.gotf + (L.plt if self.bindnow else [])} - funcs | {x[0] for x in L.gotm} - datas):
                    if r.random() < 0.98:
                        self.weaken(L, n)
        for L in self.libs:
            L.dir = r.randrange(self.npaths)

    def weaken(self, L, n):
        L.plt = [(s, k, w or s == n) for s, k, w in L.plt]
        L.gotf = [(s, k, w or s == n) for s, k, w in L.gotf]
        L.gotm = [(s, w or s == n) for s, w in L.gotm]

    def uid(self):
        self.next += self.rng.randint(1, 7)
        return self.next

    def fill(self, L, style):
        r = self.rng
        main = L is self.main
        for s in self.syms:
            if r.random() < 0.3:
                L.funcs[s] = dict(kind=self.kind[s], id=self.uid(), via=None)
        if L.funcs and r.random() < 0.2:
            a = r.choice(list(L.funcs))
            b = r.choice(self.syms)
            if b not in L.funcs and b < a and self.kind[a] == self.kind[b]:
                L.alias[b] = a
        nd = []
        for s in self.dsyms:
            if s in L.funcs or s in L.alias:
                continue
            if r.random() < 0.35:
                nd.append(s)
            elif r.random() < 0.1:
                L.decoys.append((s, r.choice(['func', 'mut', 'i64'])))
        for s in self.syms:
            if s not in L.funcs and s not in L.alias and s not in nd and s not in [x for x, _ in L.decoys] and r.random() < 0.05:
                L.decoys.append((s, r.choice(['mut', 'i64'])))
        miss = ['m0', 'm1']
        for s in self.syms:
            if r.random() < 0.35:
                k = self.kind[s]
                if r.random() < 0.03 and not self.bindnow:
                    k = r.choice([x for x in (0, 1, 2) if x != k])
                L.plt.append((s, k, r.random() < 0.3))
            if r.random() < 0.3:
                L.gotf.append((s, self.kind[s], r.random() < 0.3))
        for s in self.dsyms:
            if r.random() < 0.4:
                L.gotm.append((s, r.random() < 0.3))
        for s in miss:
            if r.random() < 0.1:
                L.plt.append((s, 0, r.random() < 0.7))
            if r.random() < 0.1:
                L.gotf.append((s, 0, r.random() < (0.8 if style == 'missing' else 1.1)))
            if r.random() < 0.1:
                L.gotm.append((s, r.random() < (0.8 if style == 'missing' else 1.1)))
        for k in (L.plt, L.gotf, L.gotm):
            r.shuffle(k)
        # weakness is by symbol name within a module
        weak = {}
        for s, *_, w in L.plt + L.gotf + L.gotm:
            weak.setdefault(s, w)
        L.plt = [(s, k, weak[s]) for s, k, _ in L.plt]
        L.gotf = [(s, k, weak[s]) for s, k, _ in L.gotf]
        L.gotm = [(s, weak[s]) for s, _ in L.gotm]
        # a function may go on to a later symbol through the PLT
        for s, f in L.funcs.items():
            c = [(t, k) for t, k, _ in L.plt if t > s and k != THROWS]
            if c and f['kind'] != THROWS and r.random() < 0.4:
                f['via'] = r.choice(c)
        L.relocs = [r.randrange(len(L.gotm)) for _ in range(r.choice([0, 1, 3]))] if L.gotm else []
        L.ctor = r.choice([None, '_initialize', '__wasm_call_ctors', 'both'])
        L.start = r.random() < 0.3
        L.nelem = r.choice([0, 0, 1, 3, 9])
        L.extra_tab = r.choice([0, 0, 1, 30])
        L.memalign = r.choice([2, 2, 3, 4, 4, 6, 10, 16])
        L.tabalign = r.choice([0, 0, 1, 4, 6])
        L.bss = r.choice([0, 0, 1, 3, 100, 5000, 65536, 70001])
        L.pad = r.choice([0, 0, 1, 3, 60])
        # layout of the data area
        off = 0 if not main else 16 + LOGMAX * 4
        L.reloc_off = off
        off += 4 * len(L.relocs)
        L.open_off = off
        off += 8
        r.shuffle(nd)
        for s in nd:
            off += 4 * r.choice([0, 0, 1, 5])
            L.datas[s] = (off, self.uid())
            off += 4
        L.data_end = off + L.pad

    # ---- code

    def encode(self, L):
        r = self.rng
        m = W.Module()
        main = L is self.main
        nonpie = main and not self.pie
        imps = []
        pl = self.pagelog()
        if not nonpie:
            imps += [('env', 'memory', 2, W.limits(0, None, False, pl)), ('env', '__indirect_function_table', 1, bytes([W.VT[FUNCREF]]) + W.limits(0)),
                     ('env', '__stack_pointer', 3, bytes([W.VT[I32], 1])), ('env', '__memory_base', 3, bytes([W.VT[I32], 0])),
                     ('env', '__table_base', 3, bytes([W.VT[I32], 0]))]
            imps += [('GOT.mem', s, 3, bytes([W.VT[I32], 1])) for s in LAYOUT]
        if not main:
            imps.append(('GOT.mem', 'the_log', 3, bytes([W.VT[I32], 1])))
        for s, k, _ in L.plt:
            imps.append(('env', s, 0, leb_u(m.type(*SIGS[k]))))
        for s, _, _ in L.gotf:
            imps.append(('GOT.func', s, 3, bytes([W.VT[I32], 1])))
        for s, _ in L.gotm:
            imps.append(('GOT.mem', s, 3, bytes([W.VT[I32], 1])))
        if self.eh and not nonpie:
            imps.append(('env', '__cpp_exception', 4, leb_u(m.type([I32], []))))
        dl_open, dl_sym = ('dyld', 'load_object', 0), ('dyld', 'resolve_symbol', 0)
        if nonpie:
            dl_open, dl_sym = ('env', 'h_open', 0), ('env', 'h_sym', 0)
        if main or L.opens or L.helper:
            imps.append(dl_open + (leb_u(m.type([I32] * 4, [I32])),))
        if main or L.helper:
            imps.append(dl_sym + (leb_u(m.type([I32] * 5, [I32])),))
        if main:
            for x in self.expected_static():
                imps.append(('env', 'q_%d' % x.id, 0, leb_u(m.type([I32], [I32]))))
        if L.broken == 'import':
            imps.append(('env', 'no_such_global', 3, bytes([W.VT[I32], 1])))
        r.shuffle(imps)
        ix = {}
        for mod, nm, kind, payload in imps:
            ix[mod, nm, kind] = m.import_(mod, nm, kind, payload)
        if nonpie:
            need = L.data_end + L.bss + self.names_len() + 64
            pages = need // 65536 + 1 + r.choice([0, 1])
            self.main_pages = pages
            tsz = 1 + L.nelem + L.extra_tab
            mem = m.memory(pages, r.choice([None, 65536]), False, None)
            m.export('memory', 2, mem)
            tab = m.table(FUNCREF, tsz, None)
            m.export('__indirect_function_table', 1, tab)
            mb = lambda: i32c(16)  # noqa: E731
            tb = lambda: i32c(1)  # noqa: E731
            gsp = m.global_(I32, True, i32c(0))
            m.export('__stack_pointer', 3, gsp)
            self.sp0 = need + 16 & ~15
            m.globals[-1] = bytes([W.VT[I32], 1]) + i32c(self.sp0) + END
            lay = {}
            self.lay0 = dict(__heap_base=self.sp0, __heap_end=pages * 65536, __stack_low=need, __stack_high=self.sp0)
            for s in LAYOUT:
                lay[s] = m.global_(I32, False, i32c(self.lay0[s]))
                m.export(s, 3, lay[s])
        else:
            gsp = ix['env', '__stack_pointer', 3]
            mb = lambda: gget(ix['env', '__memory_base', 3])  # noqa: E731
            tb = lambda: gget(ix['env', '__table_base', 3])  # noqa: E731
            lay = {s: ix['GOT.mem', s, 3] for s in LAYOUT}
        tag = None
        if self.eh:
            if nonpie:
                tag = m.tag([I32])   # not the one given to libraries
            else:
                tag = ix['env', '__cpp_exception', 4]
        inits = m.global_(I32, True, i32c(0))
        started = m.global_(I32, True, i32c(0))
        mbase = 16 if nonpie else 0   # data symbols are relative to __memory_base, which is 0 in a non-PIE module

        def adapt(kind, code):
            """One i32 from a call; exceptions give their payload plus one."""
            if kind == THROWS and tag is not None:
                return b'\x02\x7f' + b'\x1f\x7f' + vec([b'\0' + leb_u(tag) + b'\0']) + code + END + END
            return code + fold(kind)

        # functions of symbols
        fidx = {}
        for s, f in L.funcs.items():
            k = f['kind']
            v = i32c(W.s32(f['id']))
            if f['via']:
                t, tk = f['via']
                v += args(tk) + adapt(tk, call(ix['env', t, 0])) + ADD
            if k == 0:
                b = v
            elif k == 1:
                b = v + lget(0) + ADD
            elif k == 2:
                b = v + i32c(1)
            else:
                b = v + b'\x08' + leb_u(tag)
            fidx[s] = m.func(*SIGS[k], [], b)
        exports = [(s, 0, fidx[s]) for s in L.funcs] + [(s, 0, fidx[a]) for s, a in L.alias.items()]
        for s, (off, v) in L.datas.items():
            exports.append((s, 3, m.global_(I32, False, i32c(off + mbase))))
        for s, what in L.decoys:
            if what == 'func':
                exports.append((s, 0, m.func([], [], [], b'\0')))
            elif what == 'mut':
                exports.append((s, 3, m.global_(I32, True, i32c(3))))
            else:
                exports.append((s, 3, m.global_(I64, False, W.i64c(3))))
        # static table area
        eix = []
        L.elem_ids = []
        for i in range(L.nelem):
            L.elem_ids.append(self.uid())
            eix.append(m.func([], [I32], [], i32c(L.elem_ids[-1])))
        if eix:
            m.elems.append(b'\0' + tb() + END + vec(leb_u(i) for i in eix))
        L.tabsize = L.nelem + L.extra_tab
        # data
        data = bytearray(r.randrange(1, 256) for _ in range(L.data_end))
        lo = L.reloc_off
        data[lo:L.open_off + 8] = bytes(L.open_off + 8 - lo)
        for off, v in L.datas.values():
            data[off:off + 4] = v.to_bytes(4, 'little')
        if main:
            data[:16 + LOGMAX * 4] = bytes(16 + LOGMAX * 4)
            exports.append(('the_log', 3, m.global_(I32, False, i32c(mbase))))
        L.image = bytes(data)
        L.strs = {}
        tail = b''
        if main:
            for s in self.names():
                L.strs[s] = L.data_end + L.bss + len(tail)
                tail += s.encode('utf-8')
        elif L.opens:
            for s in L.opens:
                L.strs[s] = L.data_end + L.bss + len(tail)
                tail += s.encode('utf-8')
        L.memsize = L.data_end + L.bss + len(tail)
        L.tail = tail
        if data:
            m.datas.append(b'\0' + mb() + END + leb_u(len(data)) + bytes(data))
        if tail:
            m.datas.append(b'\0' + mb() + i32c(L.data_end + L.bss) + ADD + END + leb_u(len(tail)) + tail)
        at = lambda off: mb() + i32c(off) + ADD  # noqa: E731

        def log(code):
            base = mb() if main else gget(ix['GOT.mem', 'the_log', 3])
            # log[log[0]++] = code, words from offset 16
            return (base + base + LOAD + i32c(4) + MUL + ADD + i32c(16) + ADD + i32c(code) + STORE
                    + base + base + LOAD + i32c(1) + ADD + STORE)

        trap = b'\0'
        if L.start or L.traps == 'start':
            m.start = m.func([], [], [], gget(started) + i32c(1) + ADD + gset(started) + (trap if L.traps == 'start' else b''))
        if L.relocs or L.traps == 'reloc' or r.random() < 0.5:
            b = log(1000 + L.id)
            for i, g in enumerate(L.relocs):
                b += at(L.reloc_off + 4 * i) + gget(ix['GOT.mem', L.gotm[g][0], 3]) + STORE
            b += trap if L.traps == 'reloc' else b''
            exports.append(('__wasm_apply_data_relocs', 0, m.func([], [], [], b)))
            L.has_reloc = True
        else:
            L.has_reloc = False
        if L.ctor or L.traps == 'ctor':
            L.ctor = L.ctor or '_initialize'
            for nm in (['_initialize', '__wasm_call_ctors'] if L.ctor == 'both' else [L.ctor]):
                b = log(2000 + L.id) + gget(inits) + i32c(1) + ADD + gset(inits)
                for i, s in enumerate(L.opens):
                    # handle at open_off + 4, number of successes at open_off
                    b += at(L.open_off) + at(L.open_off) + LOAD
                    b += at(L.strs[s]) + i32c(len(s.encode('utf-8'))) + i32c(0) + at(L.open_off + 4) + call(ix[dl_open]) + EQZ + ADD + STORE
                b += log(3000 + L.id)
                b += trap if L.traps == 'ctor' else b''
                exports.append((nm, 0, m.func([], [], [], b)))
        # queries
        Q = L.Q = []
        q = lambda what, code: Q.append((what, code))  # noqa: E731
        q(('mb',), mb())
        q(('tb',), tb())
        q(('inits',), gget(inits))
        q(('started',), gget(started))
        hashf = m.func([I32, I32], [I32], [I32],
                       b'\x03\x40' + lget(0) + lget(1) + LTU + b'\x04\x40' + lget(2) + i32c(31) + MUL + lget(0) + LOAD8 + ADD + lset(2)
                       + lget(0) + i32c(1) + ADD + lset(0) + W.br(1) + END + END + lget(2))
        h0 = L.open_off + 8
        L.hash_a = (h0, min(h0 + 400, L.memsize))
        L.hash_b = (max(h0, L.memsize - 400), L.memsize)
        for what, (a, z) in (('hash_a', L.hash_a), ('hash_b', L.hash_b)):
            q((what,), at(a) + at(z) + call(hashf))
        q(('sp',), gget(gsp))
        q(('setsp',), gget(gsp) + i32c(16) + SUB + gset(gsp) + gget(gsp))
        for s in LAYOUT:
            q(('layout', s), gget(lay[s]))
        for s, k, w in L.plt:
            q(('plt', s, k, w), args(k) + adapt(k, call(ix['env', s, 0])))
            tf = m.func(*SIGS[k], [], b''.join(lget(i) for i in range(len(SIGS[k][0]))) + b'\x12' + leb_u(ix['env', s, 0]))
            q(('plt', s, k, w), args(k) + adapt(k, call(tf)))
        for s, k, w in L.gotf:
            g = ix['GOT.func', s, 3]
            q(('gotf', s, w), gget(g))
            q(('gotfcall', s, k, w), args(k) + adapt(k, gget(g) + b'\x11' + leb_u(m.type(*SIGS[k])) + b'\0'))
        for s, w in L.gotm:
            g = ix['GOT.mem', s, 3]
            q(('gotm', s, w), gget(g))
            q(('gotmload', s, w), gget(g) + b'\x04\x7f' + gget(g) + LOAD + b'\x05' + i32c(0) + END)
        for i, g in enumerate(L.relocs):
            q(('reloc', L.gotm[g][0], L.gotm[g][1]), at(L.reloc_off + 4 * i) + LOAD)
        q(('opened',), at(L.open_off) + LOAD)
        for i in range(L.nelem):
            q(('elem', i), tb() + i32c(i) + ADD + b'\x11' + leb_u(m.type([], [I32])) + b'\0')
        # br_table
        b = b'\x02\x40' * len(Q) + lget(0) + b'\x0e' + vec(leb_u(i) for i in range(len(Q))) + leb_u(len(Q) - 1) + END
        for i, (_, code) in enumerate(Q):
            # a branch to the end of the function is left to `return`
            b += code + b'\x0f' + (END if i + 1 < len(Q) else b'')
        exports.append(('q_%d' % L.id, 0, m.func([I32], [I32], [], b)))
        if L.helper:
            for nm, n, f in (('h_open', 4, ix[dl_open]), ('h_sym', 5, ix[dl_sym])):
                exports.append((nm, 0, m.func([I32] * n, [I32], [], b''.join(map(lget, range(n))) + call(f))))
        if main:
            sym, opn = ix[dl_sym], ix[dl_open]
            names = self.names()
            for x in self.expected_static():
                exports.append(('ask_%d' % x.id, 0, m.func([I32], [I32], [], lget(0) + call(ix['env', 'q_%d' % x.id, 0]))))
            # handles in the last words of the log header (4, 8, 12 are free)
            for i, s in enumerate(names):
                exports.append(('open_%d' % i, 0, m.func([], [I32, I32], [], at(L.strs[s]) + i32c(len(s.encode('utf-8'))) + i32c(0) + at(4) + call(opn) + at(4) + LOAD)))
                exports.append(('sym_%d' % i, 0, m.func([I32, I32], [I32, I32], [], at(8) + i32c(-1) + STORE + lget(0) + lget(1) + at(L.strs[s])
                                                        + i32c(len(s.encode('utf-8'))) + at(8) + call(sym) + at(8) + LOAD)))
            # ask through a handle: look up q_<id> and call it
            for i, s in enumerate(names):
                if s.startswith('q_'):
                    exports.append(('askd_' + s[2:], 0, m.func([I32, I32], [I32], [],
                                                             lget(0) + i32c(1) + at(L.strs[s]) + i32c(len(s)) + at(8) + call(sym) + b'\x04\x40\0' + END
                                                             + lget(1) + at(8) + LOAD + b'\x11' + leb_u(m.type([I32], [I32])) + b'\0')))
            for k in range(3):
                exports.append(('icall_%d' % k, 0, m.func([I32], [I32], [], args(k) + lget(0) + b'\x11' + leb_u(m.type(*SIGS[k])) + b'\0' + fold(k))))
            exports.append(('peek', 0, m.func([I32], [I32], [], lget(0) + LOAD)))
            exports.append(('badsym', 0, m.func([], [I32], [], i32c(1) + i32c(1) + i32c(-8) + i32c(100) + at(8) + call(sym))))
            exports.append(('badopen', 0, m.func([], [I32], [], i32c(-8) + i32c(100) + i32c(0) + at(8) + call(opn))))
            exports.append(('badmode', 0, m.func([], [I32], [], at(0) + i32c(1) + i32c(1) + at(8) + call(opn))))
            page = 1 if self.page1 else 65536
            exports.append(('growm', 0, m.func([I32], [I32, I32], [I32, I32],
                                              lget(0) + b'\x40\0' + ltee(1) + i32c(page) + MUL + b'\x3f\0' + i32c(page) + MUL
                                              + lget(1) + i32c(page) + MUL + i32c(0x5a) + lget(0) + i32c(page) + MUL + b'\xfc\x0b\0')))
            mark = m.func([], [I32], [], i32c(77777))
            m.elems.append(b'\x03\0' + vec([leb_u(mark)]))
            exports.append(('growt', 0, m.func([I32], [I32, I32], [I32], b'\xd2' + leb_u(mark) + lget(0) + b'\xfc\x0f\0' + ltee(1) + b'\xfc\x10\0')))
            exports.append(('hashr', 0, m.func([I32, I32], [I32], [], lget(0) + lget(1) + call(hashf))))
        r.shuffle(exports)
        for e in exports:
            m.export(*e)
        L.nfuncexports = sum(1 for e in exports if e[1] == 0)
        # dylink.0
        subs = []
        ms, ma, ts, ta = L.memsize, L.memalign, L.tabsize, L.tabalign
        if L.broken == 'align':
            ma = r.choice([32, 33, 64, 0xffffffff])
        elif L.broken == 'memhuge':
            ms = r.choice([0xffffffff, 0xfffff000])
        elif L.broken == 'tabhuge':
            ts = 0xffffffff
        elif L.broken == 'taboverflow':
            ta = r.choice([32, 40])
        if nonpie:
            ms = ma = ts = ta = 0
        subs.append((1, b''.join(map(leb_u, (ms, ma, ts, ta)))))
        if L.needs or r.random() < 0.5:
            subs.append((2, vec(name(x) for x in L.needs)))
        if r.random() < 0.3:
            subs.append((3, vec([])))
        # toolchains list the symbols under "env", also for what comes from the GOT
        flags = {x: w for x, *_, w in L.plt + L.gotf + L.gotm}
        info = [('env', x, 1 | r.choice([0, 0x10])) if w else ('env', x, r.choice([0, 4, 0x10])) for x, w in sorted(flags.items()) if w or r.random() < 0.2]
        r.shuffle(info)
        if info:
            subs.append((4, vec(name(mod) + name(s) + leb_u(f) for mod, s, f in info)))
        if r.random() < 0.3:
            subs.insert(r.randint(1, len(subs)), (r.choice([5, 77, 127]), bytes(r.randrange(256) for _ in range(r.randint(0, 9)))))
        if L.broken != 'nodylink':
            m.customs.append(('pre', 'dylink.0', b''.join(bytes([k]) + leb_u(len(p)) + p for k, p in subs)))
        out = m.encode()
        if L.broken == 'garbage':
            out = out[:r.randint(0, len(out) - 1)] if r.random() < 0.5 else out[:8] + b'\x0b\x05\xff'
        return out

    def pagelog(self):
        return 0 if self.page1 else None

    def names(self):
        out = [x.name for x in self.libs] + ['no-such-lib', '../x', 'a/b', 'z\0', '', '.'] + self.syms + self.dsyms + ['m0', 'nothere', 'the_log']
        out += ['q_%d' % x.id for x in self.libs]
        seen = []
        for s in out:
            if s not in seen:
                seen.append(s)
        return seen

    def names_len(self):
        return sum(len(s.encode('utf-8')) for s in self.names())

    def expected_static(self):
        """Libraries in the closure of the main module's needs."""
        order = [self.main]
        for L in order:
            for n in L.needs:
                x = self.by_name.get(n)
                if x is not None and x not in order:
                    order.append(x)
        return order[1:]




class Fail(Exception):
    """The operation is to be reported as failed."""


class Trap(Exception):
    pass


class Bad(Exception):
    """(key, what) of a violation."""


class Dead(Exception):
    pass


class Repl:
    """Drives a REPL command by command (later ones depend on answers)."""

    def __init__(self, exe, opts, d):
        self.err = open(os.path.join(d, 'stderr'), 'w+b')
        self.p = subprocess.Popen([exe, *opts, '--repl', '--repl-prompt', 'X'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=d,
                                  env=tool_env(leaks=True))
        self.buf = b''
        self.n = 0
        self.last = self.sent = ''
        try:
            self.read()
            self.loaded = True
        except Dead:
            self.loaded = False

    def read(self):
        while not self.buf.endswith(b'X> '):
            rl, _, _ = select.select([self.p.stdout], [], [], 60)
            if not rl:
                raise TimeoutError
            b = os.read(self.p.stdout.fileno(), 65536)
            if not b:
                raise Dead
            self.buf += b
        out, self.buf = self.buf, b''
        self.last = out.decode('utf-8', 'replace')
        return self.last

    def cmd(self, s):
        self.n += 1
        self.sent = s
        try:
            self.p.stdin.write(s.encode() + b'\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            raise Dead
        return self.read()

    def ask(self, *a):
        """Results, or None for an error."""
        out = self.cmd(':invoke ' + ' '.join(map(str, a)))
        m = re.search(r'Result: (.*)', out)
        if not m:
            return None
        return [int(x.split(':')[0]) & M32 for x in m.group(1).split(', ')]

    def close(self):
        try:
            self.p.stdin.write(b':exit\n')
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        try:
            self.p.wait(60)
        except subprocess.TimeoutExpired:
            raise TimeoutError
        self.err.seek(0)
        return self.p.returncode, self.err.read().decode('utf-8', 'replace')

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.err.close()


def hash31(b):
    h = 0
    for x in b:
        h = (h * 31 + x) & M32
    return h


class Follow:
    """The model of one loaded main module, kept in step with the REPL."""

    def __init__(self, case, rng, repl, stats):
        self.c, self.rng, self.R, self.stats = case, rng, repl, stats
        self.main = case.main
        self.order = []      # visible libraries in load order
        self.got = {}        # (library, symbol, type) -> definer or None
        self.bound = {}      # (library, symbol) -> definer
        self.inits = {}
        self.opened = {}
        self.gen = {}
        self.handle = {}     # library -> handle
        self.base = {}       # library -> (memory, table)
        self.addr = {}       # (library, generation, symbol) -> table index
        self.mem = []        # (lo, hi, what)
        self.tab = []
        self.grown = []
        self.log = []
        self.pos = 0
        self.sp = None
        self.static = case.expected_static()

    # ---- loading

    def defines(self, L, s, typ):
        if typ == 'f':
            return s in L.funcs or s in L.alias or (s, 'func') in L.decoys or s == 'q_%d' % L.id
        return s in L.datas or (L is self.main and s == 'the_log')

    def find(self, s, typ):
        return next((L for L in self.order if self.defines(L, s, typ)), None)

    def sig(self, d, s):
        s = d.alias.get(s, s)
        return SIGS[d.funcs[s]['kind']] if s in d.funcs else None

    def load1(self, L):
        if L.broken or L.traps == 'start':
            raise Fail('broken library')
        self.order.append(L)
        self.gen[L] = self.gen.get(L, 0) + 1
        for t in (self.inits, self.opened, self.handle, self.base):
            t.pop(L, None)
        for t in (self.got, self.bound):
            for k in [k for k in t if k[0] is L]:
                del t[k]

    def by_name(self, n):
        return next((L for L in self.order if L.name == n and L is not self.main), None)

    def load_batch(self, first, bindnow):
        mark = len(self.order)
        try:
            self.load1(first)
            i = mark
            while i < len(self.order):
                for n in self.order[i].needs:
                    if self.by_name(n) is None:
                        if n not in self.c.by_name:
                            raise Fail('missing library')
                        self.load1(self.c.by_name[n])
                i += 1
            batch = self.order[mark:]
            for L in batch:
                for typ, lst in (('f', L.gotf), ('m', L.gotm)):
                    for s, *_, w in lst:
                        d = self.find(s, typ)
                        if d is None and not w:
                            raise Fail(f'missing symbol {s!r}')
                        self.got[L, s, typ] = d
            if bindnow:
                for L in batch:
                    for s, k, w in L.plt:
                        d = self.find(s, 'f')
                        if d is not None and self.sig(d, s) == SIGS[k]:
                            self.bound[L, s] = d
                        elif not w:
                            raise Fail(f'missing function {s!r}, bound eagerly')
        except Fail:
            del self.order[mark:]
            raise
        return batch

    def dl_open(self, n):
        L = self.by_name(n)
        if L is not None:
            return L
        if n not in self.c.by_name:
            raise Fail('missing library')
        mark = len(self.order)
        try:
            self.run_init(self.load_batch(self.c.by_name[n], False))
        except Fail:
            del self.order[mark:]
            raise
        return self.c.by_name[n]

    # ---- initialisation, following the log the libraries wrote

    def event(self, allowed, what):
        if self.pos >= len(self.log):
            raise Bad(f'init-{what}', f'the log {self.log} ends where {sorted(allowed)} was due')
        v = self.log[self.pos]
        if v not in allowed:
            raise Bad(f'init-{what}', f'{v} at {self.pos} of the log {self.log}, where {sorted(allowed)} was due (1000+: relocations, 2000+: constructor, 3000+: its end)')
        self.pos += 1
        return v

    def run_init(self, batch):
        ids = {L.id: L for L in batch}
        todo = {1000 + L.id for L in batch if L.has_reloc}
        while todo:
            v = self.event(todo, 'relocs')
            todo.remove(v)
            if ids[v - 1000].traps == 'reloc':
                raise Fail('trap')
        todo = {2000 + L.id for L in batch if L.ctor}
        while todo:
            v = self.event(todo, 'ctors')
            todo.remove(v)
            L = ids[v - 2000]
            for x in todo:
                d = ids[x - 2000]
                if self.reaches(L, d) and not self.reaches(d, L) and (d.name in L.needs or not self.cycle_between(L, d)):
                    raise Bad('init-order', f'{L.id} was initialised before {d.id}, on which it depends: {self.log}')
            self.inits[L] = self.inits.get(L, 0) + 1
            for n in L.opens:
                try:
                    self.dl_open(n)
                    self.opened[L] = self.opened.get(L, 0) + 1
                    self.stats['nested'] += 1
                except Fail:
                    pass
            self.event({3000 + L.id}, 'nested')
            if L.traps == 'ctor':
                raise Fail('trap')

    def reaches(self, a, b):
        seen, todo = set(), [a]
        while todo:
            for n in todo.pop().needs:
                y = self.c.by_name.get(n)
                if y is not None and y not in seen:
                    seen.add(y)
                    todo.append(y)
        return b in seen

    def cycle_between(self, a, b):
        return any(self.reaches(x, x) and (x is a or self.reaches(a, x)) and (x is b or self.reaches(x, b)) for x in self.c.libs)

    def read_log(self):
        mb = self.base[self.main][0]
        n = self.R.ask('peek', mb)
        if not n or n[0] > LOGMAX:
            raise Bad('log', f'the log length reads {n}')
        while len(self.log) < n[0]:
            v = self.R.ask('peek', mb + 16 + 4 * len(self.log))
            if not v:
                raise Bad('log', 'the log cannot be read')
            self.log.append(v[0])

    # ---- areas and addresses

    def area(self, lst, lo, size, what):
        if size:
            for a, b, w in lst:
                if lo < b and a < lo + size:
                    raise Bad('overlap', f'{what} [{lo:#x},{lo + size:#x}) overlaps {w} [{a:#x},{b:#x})')
            lst.append((lo, lo + size, what))

    def query(self, L, k):
        if L is self.main:
            return self.R.ask('q_0', k)
        if L in self.static:
            return self.R.ask('ask_%d' % L.id, k)
        if L not in self.handle:
            self.open(L.name)
        return self.R.ask('askd_%d' % L.id, self.handle[L], k)

    def learn(self, L):
        if L in self.base:
            return
        v = [self.query(L, 0), self.query(L, 1)]
        if None in v:
            raise Bad('ask', f'no answer from {L.name!r}: {self.R.last[-300:]}')
        mb, tb = v[0][0], v[1][0]
        self.base[L] = (mb, tb)
        if L is self.main and not self.c.pie:
            self.area(self.mem, 0, self.c.main_pages * 65536, 'memory of the main module')
            self.area(self.tab, 0, 1 + L.nelem + L.extra_tab, 'table of the main module')
            return
        if mb % (1 << L.memalign) or tb % (1 << L.tabalign):
            raise Bad('alignment', f'{L.name!r}: memory at {mb:#x} (align 2**{L.memalign}), table at {tb} (align 2**{L.tabalign})')
        self.area(self.mem, mb, L.memsize, f'memory of {L.name!r}')
        self.area(self.tab, tb, L.tabsize, f'table of {L.name!r}')

    def address(self, d, s, typ, a, who):
        """One address for a definition; nothing else is there."""
        self.stats['addrs'] += 1
        self.learn(d)
        if typ == 'm':
            want = self.base[d][0] + (0 if s == 'the_log' else d.datas[s][0])
            if a != want:
                raise Bad('data-address', f'{who}: {s!r} is at {a:#x}, but {want:#x} in {d.name!r}')
            return
        key = (d, self.gen[d], d.alias.get(s, s))
        if key not in self.addr:
            if not a:
                raise Bad('func-address', f'{who}: {s!r} of {d.name!r} has a null address')
            self.area(self.tab, a, 1, f'slot of {s!r} of {d.name!r}')
            self.addr[key] = a
        elif self.addr[key] != a:
            raise Bad('func-address', f'{who}: {s!r} of {d.name!r} is at {a}, elsewhere at {self.addr[key]}')

    # ---- expected values

    def call(self, d, s, k):
        """What d's definition of s, called as kind k, gives."""
        if self.sig(d, s) != SIGS[k]:
            raise Trap
        f = d.funcs[d.alias.get(s, s)]
        v = f['id']
        if f['kind'] == THROWS:
            return ('throw', v, d)
        if f['via']:
            x = self.plt(d, *f['via'])
            if isinstance(x, tuple):
                return x
            v += x
        return (v + [0, 5, 1][f['kind']]) & M32

    def plt(self, L, s, k):
        if (L, s) not in self.bound:
            d = self.find(s, 'f')
            if d is None or self.sig(d, s) != SIGS[k]:
                raise Trap
            self.bound[L, s] = d
        return self.call(self.bound[L, s], s, k)

    def caught(self, L, k, v):
        if isinstance(v, tuple):
            own = lambda x: x is self.main and not self.c.pie  # noqa: E731
            if k != THROWS or own(L) != own(v[2]):
                raise Trap
            return v[1]
        return v

    def ask(self, L, k):
        self.stats['asks'] += 1
        what = L.Q[k][0]
        w = what[0]
        who = f'{L.name!r} {what}'
        got = self.query(L, k)
        if got is not None:
            got = got[0]
        try:
            if w in ('mb', 'tb'):
                want = self.base[L][w == 'tb']
            elif w == 'inits':
                want = self.inits.get(L, 0)
            elif w == 'started':
                want = 1 if L.start else 0
            elif w in ('hash_a', 'hash_b'):
                a, z = L.hash_a if w == 'hash_a' else L.hash_b
                img = L.image + bytes(L.bss) + L.tail
                want = hash31(img[a:z])
            elif w == 'sp':
                want = self.sp
            elif w == 'setsp':
                self.sp -= 16
                want = self.sp
            elif w == 'layout':
                want = self.layout[what[1]]
            elif w == 'plt':
                want = self.caught(L, what[2], self.plt(L, what[1], what[2]))
            elif w == 'opened':
                want = self.opened.get(L, 0)
            elif w == 'elem':
                want = L.elem_ids[what[1]]
            elif w in ('gotf', 'gotm', 'reloc'):
                typ = 'f' if w == 'gotf' else 'm'
                d = self.got[L, what[1], typ]
                if d is not None and got is not None:
                    self.address(d, what[1], typ, got, who)
                    return
                want = 0
            elif w == 'gotfcall':
                d = self.got[L, what[1], 'f']
                if d is None:
                    raise Trap
                want = self.caught(L, what[2], self.call(d, what[1], what[2]))
            elif w == 'gotmload':
                d = self.got[L, what[1], 'm']
                want = 0 if d is None else d.datas[what[1]][1]
        except Trap:
            self.stats['traps'] += 1
            want = None
        if got != want:
            raise Bad(f'answer:{w}', f'{who} gives {got}, want {want} (None: a trap)\n{self.R.last[-300:]}')

    # ---- operations

    def open(self, n):
        self.stats['opens'] += 1
        got = self.R.ask('open_%d' % self.c.names().index(n))
        if got is None:
            raise Bad('open', f'opening {n!r} ended the program: {self.R.last[-300:]}')
        self.read_log()
        before = list(self.order)
        try:
            L = self.dl_open(n)
        except Fail as e:
            if self.pos != len(self.log):
                raise Bad('init-extra', f'events in the log {self.log} from {self.pos}')
            if got[0] == 0:
                raise Bad('open-accepted', f'{n!r} was opened although: {e}')
            self.stats['open_fail'] += 1
            return
        if self.pos != len(self.log):
            raise Bad('init-extra', f'events in the log {self.log} from {self.pos}')
        if got[0] != 0 or got[1] == 0:
            raise Bad('open-failed', f'opening {n!r} gives {got}: {self.R.last[-300:]}')
        self.stats['open_ok'] += 1
        self.handle[L] = got[1]
        for x in self.order:
            if x not in before:
                self.learn(x)

    def lookup(self, L, n, typ):
        self.stats['lookups'] += 1
        if L not in self.handle:
            self.open(L.name)
        got = self.R.ask('sym_%d' % self.c.names().index(n), self.handle[L], typ)
        t = {1: 'f', 2: 'm'}.get(typ)
        if got is None:
            raise Bad('lookup', f'looking up {n!r} ended the program: {self.R.last[-300:]}')
        if t is None or not self.defines(L, n, t):
            if got[0] == 0:
                raise Bad('lookup-accepted', f'{n!r} (type {typ}) of {L.name!r} was found at {got[1]}')
            return
        if got[0] != 0:
            raise Bad('lookup-failed', f'{n!r} (type {typ}) of {L.name!r} was not found')
        self.address(L, n, t, got[1], f'lookup in {L.name!r}')
        if t == 'm' and n in L.datas:
            v = self.R.ask('peek', got[1])
            if v != [L.datas[n][1]]:
                raise Bad('answer:lookup', f'{n!r} of {L.name!r} reads {v}')
        k = self.c.kind.get(n)
        if t == 'f' and k is not None and k != THROWS:
            v = self.R.ask('icall_%d' % k, got[1])
            try:
                want = self.call(L, n, k)
                want = None if isinstance(want, tuple) else [want]
            except Trap:
                want = None
            if v != want:
                raise Bad('answer:lookup', f'calling {n!r} of {L.name!r} gives {v}, want {want}')

    def grow(self, op, n):
        self.stats['grow'] += 1
        v = self.R.ask(op, n)
        if v is None or v[0] == M32 and op == 'growt':
            raise Bad('grow', f'{op} {n} gives {v}: {self.R.last[-300:]}')
        if op == 'growm':
            self.area(self.mem, v[0], v[1] - v[0], 'grown memory')
        else:
            self.area(self.tab, v[0], v[1] - v[0], 'grown table')
        if v[1] > v[0]:
            self.grown.append((op, v[0], v[1]))

    def again(self):
        rng = self.rng
        for L in self.order:
            self.learn(L)
            for k in range(len(L.Q)):
                if L.Q[k][0][0].startswith('hash') or rng.random() < 0.4:
                    self.ask(L, k)
        for op, a, b in self.grown:
            if op == 'growm':
                for lo, hi in ((a, min(b, a + 300)), (max(a, b - 300), b)):
                    v = self.R.ask('hashr', lo, hi)
                    if v != [hash31(b'\x5a' * (hi - lo))]:
                        raise Bad('grown', f'memory grown by the program [{a:#x},{b:#x}) was changed')
            else:
                for x in (a, b - 1):
                    v = self.R.ask('icall_0', x)
                    if v != [77777]:
                        raise Bad('grown', f'slot {x} of the table grown by the program [{a},{b}) was changed: {v}')
        for L in self.order:
            if L is not self.main and rng.random() < 0.5:
                for _ in range(rng.randint(1, 4)):
                    n = rng.choice(self.c.names())
                    self.lookup(L, n, rng.choice([1, 1, 2, 2, 3, 0]))

    def begin(self):
        c = self.c
        why = None
        try:
            batch = self.load_batch(self.main, c.bindnow)
            if any(L.traps in ('ctor', 'reloc') for L in batch):
                why = 'an initialiser traps'
        except Fail as e:
            why = str(e)
        if why is not None:
            if self.R.loaded:
                raise Bad('load-accepted', f'the main module was loaded although: {why}')
            self.stats['fail_load'] += 1
            return False
        if not self.R.loaded:
            raise Bad('load-failed', 'the main module was not loaded')
        self.learn(self.main)
        self.read_log()
        self.run_init(batch)
        if self.pos != len(self.log):
            raise Bad('init-extra', f'events in the log {self.log} from {self.pos}')
        self.layout = {}
        for k, (what, _) in enumerate(self.main.Q):
            if what[0] == 'layout':
                v = self.R.ask('q_0', k)
                self.layout[what[1]] = v and v[0]
        if None in self.layout.values():
            raise Bad('ask', 'no answer from the main module')
        hb, he, sl, sh = (self.layout[x] for x in LAYOUT)
        if c.pie:
            if sh % 16 or sh < sl or c.stack is not None and not c.stack <= sh - sl < c.stack + 16 or he < hb:
                raise Bad('layout', f'{self.layout} with stack size {c.stack}')
            self.area(self.mem, sl, sh - sl, 'stack')
            self.area(self.mem, hb, he - hb, 'heap')
            self.sp = sh
        else:
            if self.layout != c.lay0:
                raise Bad('layout', f'{self.layout} want {c.lay0}')
            self.sp = c.sp0
        for L in list(self.order):
            self.learn(L)
        return True

    def run(self):
        c, rng = self.c, self.rng
        if not self.begin():
            return
        ops = [('ask', L, k) for L in [self.main] + self.static for k in range(len(L.Q)) if rng.random() < 0.7]
        rng.shuffle(ops)
        for _ in range(rng.choice([0, 2, 5, 9, 14])):
            x = rng.random()
            if x < 0.5:
                op = ('open', rng.choice(c.libs).name)
            elif x < 0.6:
                op = ('open', rng.choice(['no-such-lib', '../x', 'a/b', 'z\0', '', '.']))
            elif x < 0.72:
                op = ('grow', 'growm', rng.choice([0, 1, 100, 5000] if c.page1 else [0, 1, 3]))
            elif x < 0.84:
                op = ('grow', 'growt', rng.choice([0, 1, 7, 100]))
            elif x < 0.9:
                op = (rng.choice(['badsym', 'badopen', 'badmode']),)
            else:
                op = ('again',)
            ops.insert(rng.randrange(len(ops) + 1), op)
        for op in ops + [('again',)]:
            if op[0] in ('ask', 'open', 'grow', 'again'):
                getattr(self, op[0])(*op[1:])
            else:
                v = self.R.ask(op[0])
                if v not in ([[1], None] if op[0] == 'badsym' else [None] if op[0] == 'badopen' else [[1]]):
                    raise Bad(op[0], f'{op[0]} gives {v}')


def session(seed, i, exes):
    rng = random.Random(f'C24:{seed}:{i}')
    eh = rng.random() < 0.6
    pool = [e for e in exes if not (eh and e[0] in ('v1', 'v2', 'v5'))]
    cfg, exe = pool[0] if rng.random() < 0.5 else rng.choice(pool)
    case = Case(rng, eh)
    for L in [case.main] + case.libs:
        L.bin = case.encode(L)
    stats = dict.fromkeys(('asks', 'opens', 'open_ok', 'open_fail', 'fail_load', 'lookups', 'grow', 'traps', 'addrs', 'nested', 'cmds'), 0)
    d = tempfile.mkdtemp(prefix='c24-', dir=SCRATCH)
    bad = None
    R = None
    try:
        dirs = [os.path.join(d, 'p%d' % k) for k in range(case.npaths)]
        for p in dirs:
            os.mkdir(p)
        for L in case.libs:
            for k in range(L.dir, case.npaths):
                # a file of the same name further down the search path must not be used
                if k == L.dir or rng.random() < 0.3:
                    with open(os.fsencode(dirs[k]) + b'/' + L.name.encode('utf-8'), 'wb') as f:
                        f.write(L.bin if k == L.dir else b'not this')
        with open(os.path.join(d, 'main.wasm'), 'wb') as f:
            f.write(case.main.bin)
        opts = ['--dyld', '--dyld-dlfcn'] + [x for p in dirs for x in ('--dyld-path', p)]
        opts += ['--dyld-bindnow'] * case.bindnow + ['--wasi'] * case.wasi
        if case.stack is not None:
            opts.append(f'--dyld-stack-size={case.stack}')
        nload = rng.choice([1, 1, 1, 2, 3])
        R = Repl(exe, opts + ['--load', 'main.wasm'] * nload, d)
        rc = None
        try:
            try:
                # the last one is asked
                Follow(case, rng, R, stats).run()
            except Bad as e:
                bad = e.args
            except Dead:
                bad = ('crash', 'the command ended early')
            rc, err = R.close()
        except TimeoutError:
            bad = ('hang', f'no answer within 60 s after {R.n} commands, to {R.sent!r}; read so far {R.buf[-200:]!r}')
        stats['cmds'] = R.n
        if rc is not None and (rc != (0 if R.loaded else 1) or re.search('Sanitizer|runtime error:|Assertion', err)):
            s = crash_summary(err, rc)
            bad = ('crash:' + re.sub(r'\d+', 'N', s)[:120], s + '\n' + err[-4000:])
        elif bad and rc is not None:
            bad = (bad[0], bad[1] + '\n' + err[-500:])
        info = f'case {i} {cfg} {"pie" if case.pie else "non-pie"} bindnow={case.bindnow} wasi={case.wasi} style={case.style} page1={case.page1} eh={eh} stack={case.stack} loads={nload}'
        keep = None
        if bad:
            keep = dict(case=i, opts=opts, main=case.main.bin.hex(), libs={L.name: L.bin.hex() for L in case.libs})
        return (bad and (bad[0], info + ': ' + bad[1], keep)), stats, (case.pie, case.bindnow, case.style, len(case.static), len(case.dyn), case.page1, nload, tuple(len(L.needs) for L in case.libs))
    finally:
        if R:
            R.kill()
        shutil.rmtree(d, ignore_errors=True)


def main(c):
    global SCRATCH
    SCRATCH = scratch_dir('c24-')
    names = ['asan', 'rel', 'dbg'] if c.quick() else ['asan', 'rel', 'dbg', 'msan', 'v1', 'v3', 'v4', 'v7', 'v10']
    build.build_many(names)
    exes = [(n, build.cli(n)) for n in names]
    n = c.scale(4000, 20000)
    only = os.environ.get('C24_CASE')
    todo = [int(only)] if only else range(n)
    tot = {}
    with cf.ProcessPoolExecutor(NPROC, initializer=_init, initargs=(SCRATCH,)) as ex:
        futs = {ex.submit(session, c.seed, i, exes): i for i in todo}
        for f in cf.as_completed(futs):
            bad, stats, shape = f.result()
            if bad and bad[0] == 'hang':
                bad, stats, shape = session(c.seed, futs[f], exes)
            c.evaluations += stats['cmds']
            c.distinct(repr(shape))
            for k, v in stats.items():
                tot[k] = tot.get(k, 0) + v
            if len(c.samples) < 6 and stats['opens']:
                c.sample(f'case {futs[f]}: {shape[:7]} {stats}')
            if bad:
                c.violation(bad[0], bad[1], bad[2])
    c.coverage.update(sessions=len(futs), **tot)
    if not only and (tot['asks'] < 1000 or tot['open_ok'] < 50 or tot['addrs'] < 500 or tot['nested'] < 1 or tot['grow'] < 10):
        raise Inconclusive(f'too little was observed: {tot}')
    c.rule = ('distinct shapes of a session: PIE or not, binding mode, style (clean, missing things, traps), numbers of libraries loaded at start and '
              'openable, page size, number of loads, needs per library')
    c.assumptions += ['load order is the main module, then needed libraries breadth first; opened libraries are appended',
                      'the order of initialisation within a cycle of libraries is not judged',
                      'a lookup at run time searches the library it names only']


def _init(s):
    global SCRATCH
    SCRATCH = s


if __name__ == '__main__':
    run_check('C24', main)
