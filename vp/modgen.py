"""Modules for the loader: random well-formed modules with deliberate mistakes,
and structured and unstructured mutations of existing modules."""
from . import wasm as W
from .ops import rnd
from .validate import MEM, SIMPLE, TV, Bad, R
from .wasm import END, I32, leb_s, leb_u, vec

VTS = [W.I32, W.I64, W.F32, W.F64, W.V128, W.FUNCREF, W.EXTERNREF, W.EXNREF]
VTW = [8, 5, 3, 3, 2, 2, 2, 1]


def skip(r):
    """Skip one instruction; raises Bad if it cannot be decoded."""
    o = r.u8()
    k = (o, None)
    if o in (0xfc, 0xfd, 0xfe):
        k = (o, r.u())
    s = SIMPLE.get(k)
    if s:
        if s[2] is not None:
            r.u8()
    elif k in MEM:
        a = r.u()
        if a & 0x40:
            r.u()
        r.u()
        if MEM[k][4] is not None:
            r.u8()
    elif o in (0x02, 0x03, 0x04):
        r.s(33)
    elif o == 0x0e:
        for _ in range(r.count()):
            r.u()
        r.u()
    elif o == 0x1c:
        r.take(r.u())
    elif o == 0x1f:
        r.s(33)
        for _ in range(r.count()):
            c = r.u8()
            if c < 2:
                r.u()
            r.u()
    elif o in (0x08, 0x0c, 0x0d, 0x10, 0x12, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x3f, 0x40, 0xd2):
        r.u()
    elif o in (0x11, 0x13):
        r.u()
        r.u()
    elif o == 0x41:
        r.s(32)
    elif o == 0x42:
        r.s(64)
    elif o == 0x43:
        r.take(4)
    elif o == 0x44:
        r.take(8)
    elif o == 0xd0:
        r.u8()
    elif o == 0xfc:
        for _ in range(2 if k[1] in (8, 10, 12, 14) else 1):
            r.u()
    elif k in ((0xfd, 12), (0xfd, 13)):
        r.take(16)
    elif k == (0xfe, 3):
        r.u8()
    elif o not in (0x00, 0x01, 0x05, 0x0a, 0x0b, 0x0f, 0x1a, 0x1b, 0xd1):
        raise Bad('opcode')
    return k


def sections(b):
    r = R(b, 8)
    out = []
    while r.p < r.e:
        i = r.u8()
        s = r.sub(r.u())
        out.append([i, bytes(b[s.p:s.e])])
    return out


def join(secs):
    return b'\0asm\1\0\0\0' + b''.join(bytes([i]) + leb_u(len(p)) + p for i, p in secs)


def bodies(pl):
    r = R(pl)
    out = []
    for _ in range(r.u()):
        s = r.sub(r.u())
        out.append(pl[s.p:s.e])
    return out


def join_bodies(bs):
    return vec(leb_u(len(b)) + b for b in bs)


def instrs(body):
    """(locals bytes, [instruction bytes])"""
    r = R(body)
    for _ in range(r.u()):
        r.u()
        r.u8()
    head = body[:r.p]
    out = []
    while r.p < r.e:
        p = r.p
        skip(r)
        out.append(body[p:r.p])
    return head, out


ALLOPS = list(SIMPLE) + list(MEM) + [(o, None) for o in (
    0, 1, 2, 3, 4, 5, 8, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf, 0x10, 0x11, 0x12, 0x13, 0x1a, 0x1b, 0x1c, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x24,
    0x25, 0x26, 0x3f, 0x40, 0x41, 0x42, 0x43, 0x44, 0xd0, 0xd1, 0xd2)] + [(0xfc, k) for k in range(8, 18)] + \
    [(0xfd, 12), (0xfd, 13), (0xfe, 3)]
CONTROL = [(o, None) for o in (0, 2, 3, 4, 5, 8, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf, 0x10, 0x11, 0x12, 0x13, 0x1a, 0x1b, 0x1c, 0x1f, 0x20,
                               0x21, 0x22, 0x23, 0x24, 0x41, 0x42, 0xd0, 0xd1, 0xd2)]


def idx(r):
    return leb_u(r.choice([0, 0, 0, 0, 1, 1, 2, 3, 4, r.randrange(8), r.choice([63, 64, 127, 128, 200, 0xffffffff])
                           if r.random() < 0.1 else 0]))


def blocktype(r):
    x = r.random()
    if x < 0.35:
        return b'\x40'
    if x < 0.7:
        return bytes([W.VT[r.choices(VTS, VTW)[0]]])
    if x < 0.97:
        return leb_s(r.choice([0, 1, 2, 3, 4, 5, 70]))
    return r.choice([b'\x79', b'\x41', b'\xff\x7f', b'\xc0\x7f', b'\x80\x00', b'\x60', b'\x6e'])


def instr(r, k=None):
    """A random instruction with random immediates, mostly plausible."""
    k = k or (r.choice(CONTROL) if r.random() < 0.5 else r.choice(ALLOPS))
    o, n = k
    b = bytes([o]) + (leb_u(n) if n is not None else b'')
    s = SIMPLE.get(k)
    if s:
        if s[2] is not None:
            b += bytes([r.choice([0, s[2] - 1, s[2] - 1, s[2], 255])])
        return b
    if k in MEM:
        _, _, a, ex, lanes = MEM[k]
        al = r.choice([a, a, a, max(0, a - 1), 0, a + 1]) | (0x80 if r.random() < 0.01 else 0)
        if r.random() < 0.15:
            b += leb_u(al | 0x40) + idx(r)
        else:
            b += leb_u(al)
        b += leb_u(r.choice([0, 1, 8, 65536, 0xffffffff]))
        if lanes is not None:
            b += bytes([r.choice([0, lanes - 1, lanes])])
        return b
    if o in (2, 3, 4):
        return b + blocktype(r)
    if o == 0x0e:
        return b + vec(leb_u(r.choice([0, 1, 2, 3])) for _ in range(r.choice([0, 1, 2, 5]))) + leb_u(r.choice([0, 1, 2]))
    if o == 0x1c:
        return b + vec(bytes([W.VT[r.choices(VTS, VTW)[0]]]) for _ in range(r.choice([0, 1, 1, 1, 1, 1, 2])))
    if o == 0x1f:
        return b + blocktype(r) + vec((lambda c: bytes([c]) + (idx(r) if c < 2 else b'') + leb_u(r.choice([0, 1, 2, 3])))(
            r.choice([0, 1, 2, 3] if r.random() < 0.95 else [4, 255])) for _ in range(r.choice([0, 1, 1, 2, 3])))
    if o in (0x08, 0x0c, 0x0d, 0x10, 0x12, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x3f, 0x40, 0xd2):
        return b + idx(r)
    if o in (0x11, 0x13):
        return b + idx(r) + idx(r)
    if o == 0x41:
        return b + leb_s(W.s32(rnd(r, I32)))
    if o == 0x42:
        return b + leb_s(W.s64(rnd(r, W.I64)))
    if o == 0x43:
        return b + r.randbytes(4)
    if o == 0x44:
        return b + r.randbytes(8)
    if o == 0xd0:
        return b + bytes([r.choice([0x70, 0x6f, 0x69, 0x70, 0x6f, 0x7f, 0x6e])])
    if o == 0xfc:
        return b + b''.join(idx(r) for _ in range(2 if n in (8, 10, 12, 14) else 1))
    if k == (0xfd, 12):
        return b + r.randbytes(16)
    if k == (0xfd, 13):
        return b + bytes(r.choice([r.randrange(32), 31, 32 if r.random() < 0.05 else 0]) for _ in range(16))
    if k == (0xfe, 3):
        return b + bytes([r.choice([0, 0, 0, 1])])
    return b


def leb_variant(r, b, signed, bits):
    """Re-encode the LEB at the start of b: padded, too long, bad unused bits."""
    i = next((k for k, x in enumerate(b) if not x & 0x80), None)
    if i is None:
        return b
    head, rest = b[:i + 1], b[i + 1:]
    n = 0
    for k, x in enumerate(head):
        n |= (x & 0x7f) << 7 * k
    if signed and head[-1] & 0x40:
        n -= 1 << 7 * len(head)
    mx = (bits + 6) // 7
    L = r.choice([len(head), mx, mx, mx + 1, r.randint(len(head), max(len(head), mx))])
    L = max(L, len(head))
    out = bytearray(W.leb_s_pad(n, L))
    if L == mx and r.random() < 0.5:
        out[-1] ^= 1 << r.randrange(7)
    return bytes(out) + rest


def mut_instr(r, ins):
    """Mutate a list of instructions in place."""
    n = len(ins)
    i = r.randrange(n)
    k = r.randrange(14)
    if k == 0:
        del ins[i]
    elif k in (1, 2, 3):
        ins.insert(i, instr(r))
    elif k == 4:
        ins[i] = instr(r)
    elif k == 5:
        j = r.randrange(n)
        ins[i], ins[j] = ins[j], ins[i]
    elif k == 6:
        ins.insert(i, ins[r.randrange(n)])
    elif k == 7:
        ins.insert(i, b'\0')            # what follows is unreachable
        if r.random() < 0.7:
            ins.insert(i + 1, instr(r))
    elif k == 8:
        ins.insert(i, r.choice([b'\x0c\x00', b'\x0f', b'\x0c\x01']))
        if r.random() < 0.5:
            ins.insert(i + 1, instr(r))
    elif k == 9:
        # the same opcode with other immediates
        try:
            key = skip(R(ins[i]))
            ins[i] = instr(r, key)
        except Bad:
            pass
    elif k == 10 and len(ins[i]) > 1:
        o = ins[i][0]
        if o in (0x41, 0x02, 0x03, 0x04):
            ins[i] = ins[i][:1] + leb_variant(r, ins[i][1:], True, 32 if o == 0x41 else 33)
        elif o == 0x42:
            ins[i] = ins[i][:1] + leb_variant(r, ins[i][1:], True, 64)
        elif o not in (0x43, 0x44, 0xd0):
            ins[i] = ins[i][:1] + leb_variant(r, ins[i][1:], False, 32)
    elif k == 11 and len(ins[i]) > 1:
        b = bytearray(ins[i])
        b[r.randrange(1, len(b))] ^= 1 << r.randrange(8)
        ins[i] = bytes(b)
    elif k == 12:
        # wrap a stretch into a block
        j = r.randint(i, min(n, i + 6))
        ins.insert(j, END)
        ins.insert(i, r.choice([b'\x02', b'\x03']) + blocktype(r))
    else:
        b = bytearray(ins[i])
        b[0] = r.randrange(256)
        ins[i] = bytes(b)


def mutate(r, b):
    """One to three structured mutations of a well-formed module."""
    try:
        secs = sections(b)
    except (Bad, IndexError):
        return mut_bytes(r, b)
    tail = b''
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        if k < 0.6:
            ci = [i for i, s in enumerate(secs) if s[0] == 10]
            if not ci:
                continue
            try:
                bs = bodies(secs[ci[0]][1])
                if not bs:
                    continue
                bi = r.randrange(len(bs))
                head, ins = instrs(bs[bi])
                for _ in range(r.choice([1, 1, 2, 4])):
                    if ins:
                        mut_instr(r, ins)
                bs[bi] = head + b''.join(ins)
                secs[ci[0]][1] = join_bodies(bs)
            except Bad:
                return mut_bytes(r, b)
        elif k < 0.85 and secs:
            i = r.randrange(len(secs))
            s = secs[i]
            w = r.randrange(9)
            if w == 0:
                del secs[i]
            elif w == 1:
                secs.insert(r.randrange(len(secs) + 1), list(s))
            elif w == 2:
                j = r.randrange(len(secs))
                secs[i], secs[j] = secs[j], secs[i]
            elif w == 3 and s[1]:
                s[1] = leb_variant(r, s[1], False, 32)
            elif w == 4:
                s[1] += r.randbytes(r.choice([1, 1, 2]))
            elif w == 5 and s[1]:
                s[1] = s[1][:-1]
            elif w == 6 and s[1]:
                bb = bytearray(s[1])
                bb[0] = (bb[0] + r.choice([1, -1])) & 0x7f
                s[1] = bytes(bb)
            elif w == 7:
                s[0] = r.randrange(15)
            else:
                secs.insert(r.randrange(len(secs) + 1), [0, custom(r)])
        elif k < 0.95 and secs:
            i = r.randrange(len(secs))
            bb = bytearray(secs[i][1])
            for _ in range(r.choice([1, 1, 2])):
                if bb:
                    x = r.randrange(min(len(bb), 300))
                    bb[x] = r.choice([bb[x] ^ (1 << r.randrange(8)), 0, 1, 0x7f, 0x80, 0xff, (bb[x] + 1) & 255, (bb[x] - 1) & 255])
            secs[i][1] = bytes(bb)
        else:
            w = r.randrange(3)
            if w == 0:
                secs.append([r.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13]), b'\0'])
            elif w == 1:
                tail = r.choice([b'\0', b'\x01', b'\x01\x00', r.randbytes(2)])
            else:
                secs.insert(0, [r.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13]), b'\0'])
    return join(secs) + tail


UTF8 = [b'', b'a', b'name', 'é'.encode(), '日本'.encode(), '😀'.encode(), b'\xc3\x28', b'\xff', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80',
        b'\xe2\x82', b'\x80', b'\xf0\x80\x80\x80', b'\xef\xbf\xbf', b'\xf4\x8f\xbf\xbf', b'\xe0\x9f\xbf', b'\xed\x9f\xbf', b'\xee\x80\x80',
        b'\xf8\x88\x80\x80\x80', b'\xc1\xbf', b'\xdf\xbf', b'\x00', b'a\xcc\x81']


def nm(r):
    return r.choice(UTF8[:6]) if r.random() < 0.85 else r.choice(UTF8)


def custom(r):
    x = r.random()
    if x < 0.4:
        return W.name(r.choice(UTF8)) + r.randbytes(r.randrange(6))
    if x < 0.7:
        return name_section(r)
    if x < 0.8:
        return b'\x05abc'
    return W.name('x') + r.randbytes(r.randrange(20))


def name_section(r):
    """A name section, possibly with duplicated or malformed subsections."""
    b = W.name('name')
    for _ in range(r.choice([1, 2, 3])):
        t = r.choice([0, 1, 1, 1, 2, 7, 9, 9, r.randrange(12)])
        if t == 0:
            p = W.name(r.choice(UTF8))
        else:
            ids = sorted(r.sample(range(8), r.randrange(4)))
            if r.random() < 0.2:
                r.shuffle(ids)
            p = vec(leb_u(i) + W.name(r.choice(UTF8)) for i in ids)
        if r.random() < 0.1:
            p = p[:-1]
        b += bytes([t]) + leb_u(len(p) + (r.choice([1, -1]) if r.random() < 0.05 and p else 0)) + p
    return b


def mut_bytes(r, b):
    """Unstructured mutations."""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 2, 4, 8])):
        if not b:
            break
        i = r.randrange(len(b))
        k = r.randrange(8)
        if k <= 1:
            b[i] ^= 1 << r.randrange(8)
        elif k == 2:
            b[i] = r.choice([0, 1, 0x7f, 0x80, 0xff, 0x40, 0x0b])
        elif k == 3:
            del b[i]
        elif k == 4:
            b[i:i] = r.randbytes(r.choice([1, 1, 2, 5]))
        elif k == 5:
            b[i:i + 5] = r.choice([b'\xff\xff\xff\xff\x0f', b'\x80\x80\x80\x80\x00', b'\xff\xff\xff\xff\x7f', b'\x80\x80\x80\x80\x08'])
        elif k == 6:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.choice([1, 2, 4, 16])]
        elif k == 7 and r.random() < 0.2:
            del b[i:]
    return bytes(b)


class Err:
    """Chooses the wrong alternative with probability p."""

    def __init__(self, r, p):
        self.r, self.p = r, p

    def __call__(self):
        return self.r.random() < self.p


def struct_module(r, p=0.012):
    """A random module exercising every section, each choice wrong with
    probability p."""
    e = Err(r, p)
    S = []
    n_t = r.choice([0, 1, 2, 3, 6, 70]) if r.random() < 0.95 else 0
    vt = lambda: r.choices(VTS[:7] if r.random() < 0.97 else VTS, VTW[:7] if False else None)[0] if not e() else None  # noqa: E731

    def vb(t):
        return bytes([W.VT[t]]) if t else bytes([r.choice([0x40, 0x6e, 0x00, 0x7a, 0x60])])
    types = []
    for _ in range(n_t):
        types.append(([vt() for _ in range(r.choice([0, 0, 1, 2, 3]))], [vt() for _ in range(r.choice([0, 0, 1, 1, 2]))]))
    if types or e():
        S.append([1, vec((b'\x60' if not e() else bytes([r.choice([0x5f, 0x50, 0x40])])) + vec(vb(t) for t in a) + vec(vb(t) for t in b)
                         for a, b in types)])

    def tidx(pred=lambda t: True):
        c = [i for i, t in enumerate(types) if pred(t)]
        if not c or e():
            return len(types) + r.choice([0, 0, 1, 1000]) if e() or not types else r.randrange(len(types))
        return r.choice(c)

    def lim(mem=False):
        mn = r.choice([0, 0, 1, 2, 10])
        fl = r.choice([0, 0, 1])
        mx = mn + r.choice([0, 1, 5, 100]) - (1 if e() and mn else 0)
        if mem and r.random() < 0.2:
            fl = 3 if not e() else 2
        if mem and r.random() < 0.1:
            mn, mx, fl = r.choice([(65536, 65536, 1), (0, 65536, 1), (65536, 0, 0)] + ([(0, 65537, 1), (65537, 65537, 1)] if e() or e() else []))
        if not mem and r.random() < 0.1:
            mn, mx, fl = 0, 0xffffffff, 1
        if e():
            fl = r.choice([2, 3, 4, 5, 8, 0x10, 0x80])
        pl = b''
        if mem and r.random() < 0.05:
            fl |= 8
            pl = leb_u(r.choice([0, 16] if not e() else [1, 15, 17, 64]))
        return bytes([fl]) + leb_u(mn) + (leb_u(mx) if fl & 1 else b'') + pl

    def tab():
        t = r.choice([W.FUNCREF, W.FUNCREF, W.EXTERNREF]) if not e() else vt()
        return t, vb(t) + lim()

    def glob(ty=None):
        t = vt()
        m = r.choice([0, 1])
        return t, m, vb(t) + bytes([m if not e() else 2])
    nf, tabs, nmem, globs, ntag = [], [], 0, [], []
    imps = []
    for _ in range(r.choice([0, 0, 0, 1, 3])):
        k = r.choice([0, 0, 1, 2, 3, 3, 4])
        head = W.name(nm(r)) + W.name(nm(r)) + bytes([k if not e() else r.choice([5, 0x80])])
        if k == 0:
            if not types and not e():
                continue
            i = tidx()
            nf.append(i)
            imps.append(head + leb_u(i))
        elif k == 1:
            t, b = tab()
            tabs.append(t)
            imps.append(head + b)
        elif k == 2:
            nmem += 1
            imps.append(head + lim(True))
        elif k == 3:
            t, m, b = glob()
            globs.append((t, m))
            imps.append(head + b)
        else:
            if not any(not t[1] for t in types) and not e():
                continue
            i = tidx(lambda t: not t[1])
            ntag.append(i)
            imps.append(head + bytes([0 if not e() else 1]) + leb_u(i))
    if imps or e():
        S.append([2, vec(imps)])
    nimpg = len(globs)
    defs = []
    for _ in range(r.choice([0, 1, 2, 4])):
        if not types and not e():
            break
        defs.append(tidx())
    nf += defs
    if defs or e():
        S.append([3, vec(leb_u(i) for i in defs)])
    tb = []
    for _ in range(r.choice([0, 1, 1, 2])):
        t, b = tab()
        tabs.append(t)
        tb.append(b)
    if tb or e():
        S.append([4, vec(tb)])
    mb = [lim(True) for _ in range(r.choice([0, 1, 1, 2]))]
    nmem += len(mb)
    if mb or e():
        S.append([5, vec(mb)])
    tg = []
    for _ in range(r.choice([0, 0, 1, 2])):
        if not any(not t[1] for t in types) and not e():
            break
        i = tidx(lambda t: not t[1])
        ntag.append(i)
        tg.append(bytes([0 if not e() else r.choice([1, 0x80])]) + leb_u(i))
    if tg or e():
        S.append([13, vec(tg)])

    def cexpr(t, depth=0):
        if e():
            t = vt()
        x = r.random()
        c = [i for i, (gt, m) in enumerate(globs[:nimpg]) if gt == t and not m]
        if c and x < 0.4:
            b = b'\x23' + leb_u(r.choice(c))
        elif globs and e():
            b = b'\x23' + leb_u(r.randrange(len(globs) + 1))
        elif t in (W.I32, W.I64) and x < 0.6 and depth < 3:
            b = cexpr(t, depth + 1) + cexpr(t, depth + 1) + bytes([r.choice([0x6a, 0x6b, 0x6c] if t == W.I32 else [0x7c, 0x7d, 0x7e])
                                                                  if not e() else r.choice([0x6d, 0x45, 0x6a, 0x7c])])
        elif t == W.FUNCREF and nf and x < 0.7:
            b = b'\xd2' + leb_u(r.randrange(len(nf) + (1 if e() else 0)))
        elif t is None:
            b = b'\x41\0'
        else:
            b = W.const(t, rnd(r, t) if t in (W.I32, W.I64, W.F32, W.F64, W.V128) else 0)
        if e():
            b += r.choice([b'\x01', b'\x1a', b'\x41\0', b'\x0b', instr(r)])
        return b
    gb = []
    for _ in range(r.choice([0, 1, 1, 3])):
        t, m, b = glob()
        gb.append(b + cexpr(t) + (END if not e() else b''))
        globs.append((t, m))
    if gb or e():
        S.append([6, vec(gb)])
    ex = []
    seen = set()
    spaces = (len(nf), len(tabs), nmem, len(globs), len(ntag))
    for _ in range(r.choice([0, 1, 3, 6])):
        k = r.randrange(5)
        if not spaces[k] and not e():
            continue
        n = nm(r) + (b'%d' % len(ex) if r.random() < 0.9 else b'')
        if n in seen and not e():
            continue
        seen.add(n)
        ex.append(W.name(n) + bytes([k if not e() else 5]) + leb_u(r.randrange(spaces[k] + (1 if e() or not spaces[k] else 0))))
    if ex or e():
        S.append([7, vec(ex)])
    c = [i for i, t in enumerate(nf) if t < len(types) and types[t] == ([], [])]
    if c and r.random() < 0.2:
        S.append([8, leb_u(r.choice(c))])
    elif e():
        S.append([8, leb_u(r.randrange(len(nf) + 2))])
    el = []
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        f = r.randrange(8) if not e() else r.choice([8, 9, 0x80])
        b = leb_u(f)
        t = W.FUNCREF
        if not f & 1:
            c = [i for i, x in enumerate(tabs) if f & 2 or i == 0 and x == W.FUNCREF]
            if not c and not e():
                continue
            ti = r.choice(c) if c else r.randrange(3)
            t = tabs[ti] if ti < len(tabs) else W.FUNCREF
            if f & 2:
                if not f & 4 and t != W.FUNCREF and not e():
                    continue
                b += leb_u(ti)
            b += cexpr(I32) + END
        else:
            t = r.choice([W.FUNCREF, W.EXTERNREF])
        if f & 4:
            if f & 3:
                if e():
                    t = vt()
                b += vb(t)
            else:
                t = W.FUNCREF
            b += vec(cexpr(t) + END for _ in range(r.randrange(4)))
        else:
            if f & 3:
                b += bytes([0 if not e() else r.choice([1, 0x70])])
            b += vec(leb_u(r.randrange(len(nf) + (1 if e() else 0))) for _ in range(r.randrange(4)) if nf)
        el.append(b)
    if el or e():
        S.append([9, vec(el)])
    dd = []
    for _ in range(r.choice([0, 0, 1, 3])):
        f = r.choice([0, 1, 2]) if not e() else r.choice([3, 4, 0x80])
        if f != 1 and not nmem and not e():
            continue
        b = leb_u(f)
        if f == 2:
            b += leb_u(r.randrange(max(1, nmem) + (1 if e() else 0)))
        if f != 1:
            b += cexpr(I32) + END
        pl = r.randbytes(r.choice([0, 1, 10]))
        dd.append(b + leb_u(len(pl) + (1 if e() else 0)) + pl)
    dc = r.random() < 0.5
    if dc:
        S.append([12, leb_u(len(dd) + (r.choice([1, -1]) if e() and dd else 0)) + (r.choice([b'\0', b'\x0b']) if e() else b'')])
    code = []
    for t in defs:
        body = W.Module.enc_locals([r.choice([W.I32, W.I64, W.V128, W.FUNCREF]) for _ in range(r.choice([0, 0, 2, 5]))])
        if e():
            body = r.choice([b'\x01\xff\xff\xff\xff\x0f\x7f', b'\x02\xff\xff\xff\xff\x0f\x7f\x01\x7f', b'\x02\x01\x7f\x01\x40',
                             b'\x01\x00\x7f', b'\x80\x00', b'\x03\x00\x7f\x00\x70\x01\x7b'])
        rt = types[t][1] if t < len(types) else []
        ins = b''
        if r.random() < 0.3:
            ins += b'\0'
            ins += b''.join(instr(r) for _ in range(r.choice([0, 0, 1, 2, 3])))
        else:
            x = r.random()
            if x < 0.3:
                ins += instr_ok(r, len(nf), tabs, nmem, globs, len(dd) if dc else 0, el)
            for q in rt:
                ins += W.const(q, 0) if q else b'\x01'
        code.append(body + ins + (END if not e() else b'') + (r.choice([END, b'\x01']) if e() else b''))
    if code or e():
        pl = join_bodies(code)
        if e():
            pl = leb_u(len(code) + 1) + pl[1:]
        S.append([10, pl])
    if dd or e():
        S.append([11, vec(dd)])
    if r.random() < 0.15:
        S.insert(r.randrange(len(S) + 1), [0, custom(r)])
    return join(S)


def instr_ok(r, nf, tabs, nmem, globs, ndata, el):
    """A small well typed (if the indices are) use of an entity."""
    k = r.randrange(9)
    c = lambda *t: b''.join(W.const(x, 1) for x in t)  # noqa: E731
    D = b'\x1a'
    if k == 0 and nf:
        return b'\xd2' + leb_u(r.randrange(nf)) + D
    if k == 1 and tabs:
        a, b = r.randrange(len(tabs)), r.randrange(len(tabs))
        return c(I32, I32, I32) + W.fc(14) + leb_u(a) + leb_u(b)
    if k == 2 and tabs and el:
        return c(I32, I32, I32) + W.fc(12) + leb_u(r.randrange(len(el))) + leb_u(r.randrange(len(tabs)))
    if k == 3 and nmem:
        return c(I32, I32, I32) + W.fc(8) + leb_u(r.choice([0, 1, ndata])) + leb_u(r.randrange(nmem))
    if k == 4:
        return W.fc(9) + leb_u(r.choice([0, 1, ndata]))
    if k == 5 and globs:
        i = r.randrange(len(globs))
        t = globs[i][0]
        return W.const(t, 0) + b'\x24' + leb_u(i) if t else b''
    if k == 6 and nmem:
        i = r.randrange(nmem + 1)
        return c(I32) + b'\x28' + W.memarg(r.choice([0, 1, 2, 2, 3]), r.choice([0, 5]), i) + D
    if k == 7:
        key = r.choice(list(SIMPLE))
        s = SIMPLE[key]
        i = instr(r, key)
        return c(*s[0]) + i + D * len(s[1])
    if k == 8 and nmem:
        key = r.choice(list(MEM))
        s = MEM[key]
        return c(*s[0]) + instr(r, key) + D * len(s[1])
    return b''
