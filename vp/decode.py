"""Decode a (valid) module to what it means: encodings which stand for the
same thing decode to the same value.  Custom sections are not part of it."""
from .modgen import sections, skip
from .validate import R


def expr(r):
    """the bytes of an expression"""
    p, d = r.p, 0
    while True:
        o, _ = skip(r)
        if o in (2, 3, 4, 0x1f):
            d += 1
        elif o == 0x0b:
            if d == 0:
                return bytes(r.b[p:r.p])
            d -= 1


def name(r):
    return bytes(r.take(r.u()))


def many(r, f):
    return [f(r) for _ in range(r.u())]


def limits(r):
    fl = r.u()
    mn = r.u()
    mx = r.u() if fl & 1 else None
    shift = r.u() if fl & 8 else None
    return fl & 2, mn, mx, shift


def memory(r):
    sh, mn, mx, shift = limits(r)
    if shift is None:
        shift = 16
    if mx is None:
        # no maximum is the same as the largest possible one
        mx = 1 << 32 - shift
    return sh, mn, min(mx, 1 << 32 - shift, 0xffffffff), shift


def table(r):
    t = r.u8()
    _, mn, mx, _ = limits(r)
    return t, mn, 0xffffffff if mx is None else mx


def tag(r):
    return r.u8(), r.u()


def globaltype(r):
    return r.u8(), r.u8()


def functype(r):
    r.u8()
    return bytes(many(r, R.u8)), bytes(many(r, R.u8))


def imp(r):
    a, b, k = name(r), name(r), r.u8()
    return a, b, k, (R.u, table, memory, globaltype, tag)[k](r)


def element(r):
    k = r.u()
    tab = off = None
    if not k & 1:
        tab = r.u() if k & 2 else 0
        off = expr(r)
        mode = 'active'
    else:
        mode = 'declarative' if k & 2 else 'passive'
    ty = 0x70
    if k & 3:
        t = r.u8()
        if k & 4:
            ty = t
    if k & 4:
        items = many(r, expr)
    else:
        items = [bytes([0xd2]) + uleb(x) + b'\x0b' for x in many(r, R.u)]
    return mode, tab, off, ty, [item(x) for x in items]


def uleb(n):
    out = bytearray()
    while True:
        out.append(n & 127 | (128 if n > 127 else 0))
        n >>= 7
        if not n:
            return bytes(out)


def item(x):
    if x[0] == 0xd2:
        r = R(x, 1)
        return ('func', r.u())
    return x


def data(r):
    k = r.u()
    mem = r.u() if k == 2 else 0 if k == 0 else None
    off = expr(r) if k != 1 else None
    return mem, off, bytes(r.take(r.u()))


def code(r):
    r = r.sub(r.u())
    loc = []
    for _ in range(r.u()):
        n, t = r.u(), r.u8()
        if n and loc and loc[-1][1] == t:
            loc[-1][0] += n
        elif n:
            loc.append([n, t])
    return loc, bytes(r.b[r.p:r.e])


FN = {1: functype, 2: imp, 3: R.u, 4: table, 5: memory, 6: lambda r: (globaltype(r), expr(r)), 7: lambda r: (name(r), r.u8(), r.u()),
      9: element, 10: code, 11: data, 13: tag}
NAME = {1: 'type', 2: 'import', 3: 'function', 4: 'table', 5: 'memory', 6: 'global', 7: 'export', 8: 'start', 9: 'element', 10: 'code',
        11: 'data', 13: 'tag'}


def decode(b):
    out = {}
    for i, p in sections(b):
        if i in FN:
            x = many(R(p), FN[i])
            if i == 7:
                # the order of exports means nothing
                x.sort()
            if x:
                out[NAME[i]] = x
        elif i == 8:
            out['start'] = R(p).u()
    return out
