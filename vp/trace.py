"""Random chains of calls through several modules that end in a trap, and the
report of the calls in progress that has to follow."""
import random
import re
import subprocess

from . import wasm as W
from .common import crash_summary, tool_env

TYPES = ('i32', 'i64', 'f32', 'f64', 'v128')
BITS = dict(i32=32, i64=64, f32=32, f64=64, v128=128)
NAMES = ('f', 'main', 'ünïcode', '関数', 'a b', 'x:y', '<unknown>', '%s%n', 'std::vector<int>::push_back(int const&)', 'n' * 300, 'é' * 80, '(paren)', '$d', '')
TRAPS = {
    'unreachable': (b'\0', 'unreachable'),
    'div': (W.i32c(1) + W.i32c(0) + b'\x6d\x1a', 'integer divide by zero'),
    'load': (W.i32c(-1) + b'\x28\x02\x00\x1a', 'out of bounds memory access'),
    'indirect': (W.i32c(1000) + b'\x11\x00\x00', 'undefined element'),
}


def val(r, t):
    n = BITS[t]
    return r.choice((0, 1, (1 << n) - 1, 1 << (n - 1), r.randrange(1 << n), r.randrange(1 << n)))


class Fn:
    pass


def show(t, v):
    return {32: f'{v:08x}', 64: f'{v:016x}', 128: 'unknown size'}[BITS[t]]


def make(r):
    """-> ([(name, encoding)], name of the export to call, its arguments,
    frames outermost first, trap message)"""
    nm = r.choice((1, 1, 2, 3))
    depth = r.choice((1, 2, 3, 5, 12, 40))
    # functions of the chain, innermost first; the module of each
    chain = []
    where = sorted(r.randrange(nm) for _ in range(depth))
    nm = where[-1] + 1
    for k in range(depth):
        f = Fn()
        f.mod = where[k]
        f.params = [r.choice(TYPES) for _ in range(r.choice((0, 0, 1, 2, 3, 7)))]
        f.locals = [r.choice(TYPES) for _ in range(r.choice((0, 0, 1, 2, 3, 9)))]
        f.tail = k > 0 and r.random() < 0.15
        chain.append(f)
    trap = r.choice(sorted(TRAPS))
    encs = []
    for m in range(nm):
        mine = [f for f in chain if f.mod == m]
        M = W.Module()
        M.type([], [])
        if mine and chain.index(mine[0]) > 0:
            g = chain[chain.index(mine[0]) - 1]
            g.imported = M.import_func(f'm{g.mod}', f'x{chain.index(g)}', g.params, [])
        M.memory(1)
        # indices in any order, other functions between
        order = list(mine)
        r.shuffle(order)
        for f in order:
            while r.random() < 0.3:
                M.func([], [], ['i32'] * r.randrange(3), b'\x01' * r.randrange(3))
            f.idx = M.func(f.params, [])
        # a table of all
        tab = [f.idx for f in order] + ([chain[chain.index(mine[0]) - 1].imported] if mine and chain.index(mine[0]) > 0 else [])
        r.shuffle(tab)
        M.table('funcref', max(len(tab), 1))
        if tab:
            M.elems.append(b'\0' + W.i32c(0) + W.END + W.vec(W.leb_u(i) for i in tab))
        for f in mine:
            k = chain.index(f)
            f.set, body = {}, b''
            allt = f.params + f.locals
            for i, t in enumerate(allt):
                if r.random() < 0.4:
                    v = val(r, t)
                    f.set[i] = v
                    body += W.const(t, v) + W.lset(i)
            # something below the arguments
            junk = 0 if f.tail else r.choice((0, 0, 1, 3))
            for _ in range(junk):
                body += W.i64c(r.randrange(1 << 40))
            blocks = r.choice((0, 0, 1, 2))
            body += b'\x02\x40' * blocks
            if k == 0:
                f.pre = body
                body += TRAPS[trap][0]
            else:
                g = chain[k - 1]
                g.args = [val(r, t) for t in g.params]
                body += b''.join(W.const(t, v) for t, v in zip(g.params, g.args))
                gi = g.idx if g.mod == f.mod else g.imported
                if r.random() < 0.3:
                    body += W.i32c(tab.index(gi))
                    op = (b'\x13' if f.tail else b'\x11') + W.leb_u(M.type(g.params, [])) + b'\0'
                else:
                    op = (b'\x12' if f.tail else b'\x10') + W.leb_u(gi)
                f.pre = body
                body += op
                f.op = op
            f.whole = body + W.END * blocks + b'\x1a' * (junk if not f.tail else 0)
            M.set_body(f.idx, f.locals, f.whole)
        exports = {}
        for f in mine:
            M.export(f'x{chain.index(f)}', 0, f.idx)
            exports.setdefault(f.idx, []).append(f'x{chain.index(f)}')
        r.shuffle(M.exports)
        # names
        modname, fnames = None, {}
        if r.random() < 0.8:
            sub = b''
            if r.random() < 0.7:
                modname = r.choice(NAMES)
                pl = W.name(modname)
                sub += b'\0' + W.leb_u(len(pl)) + pl
            if r.random() < 0.9:
                total = M.nimp[0] + len(M.funcs)
                ids = [i for i in range(total) if r.random() < 0.7]
                fnames = {i: r.choice(NAMES) + r.choice(('', str(i))) for i in ids}
                pl = W.vec(W.leb_u(i) + W.name(fnames[i]) for i in ids)
                sub += b'\1' + W.leb_u(len(pl)) + pl
            if r.random() < 0.5:
                pl = W.vec([W.leb_u(i) + W.vec([W.leb_u(0) + W.name('loc')]) for i in range(r.randrange(3))])
                sub += b'\2' + W.leb_u(len(pl)) + pl
            for kind in (3, 7, 9, 11, 100):
                if r.random() < 0.3:
                    pl = W.vec([W.leb_u(i) + W.name(f'k{kind}') for i in range(r.randrange(3))])
                    sub += bytes([kind]) + W.leb_u(len(pl)) + pl
            M.customs.append(('post', 'name', sub))
        if r.random() < 0.3:
            M.customs.append((r.choice(('pre', 'post')), 'other', b'\1\2\3'))
        b = M.encode()
        for f in mine:
            code = M.code(M.funcs[f.idx - M.nimp[0]])
            pos = [i.start() for i in re.finditer(re.escape(code), b)]
            head = len(code) - len(f.whole) - 1
            f.pcs = [p + head for p in pos]
            f.modname = '<unknown>' if modname is None else modname
            f.names = {fnames[f.idx]} if f.idx in fnames else set(exports.get(f.idx, ['<unknown>']))
        encs.append((f'm{m}', b))
    top = chain[-1]
    top.args = [val(r, t) for t in top.params]
    frames = []
    caller = None
    for f in reversed(chain):
        f.vals = [f.set.get(i, (f.args + [0] * len(f.locals))[i]) for i in range(len(f.params) + len(f.locals))]
        f.caller = caller
        # a tail call leaves the caller of its caller
        if not f.tail:
            frames.append(f)
            caller = f
    return encs, chain, frames, TRAPS[trap][1], top


FRAME = re.compile(r'frame\[ *(\d+)\] funcpc ([0-9a-f]{6,}) \((.*)\)(?: callerpc ([0-9a-f]{6,}))?$')


def judge(out, frames, msg):
    """what is wrong with the report, or None"""
    lines = out.split('\n')
    at = [i for i, l in enumerate(lines) if '[trap]' in l]
    if len(at) != 1 or msg not in lines[at[0]]:
        return f'no report of the trap ({msg})'
    got = []
    for l in lines[at[0] + 1:]:
        m = FRAME.match(l)
        if m:
            got.append((m, []))
        elif got and l.startswith('  '):
            got[-1][1].append(l.strip())
    if [int(m.group(1)) for m, _ in got] != list(range(len(frames)))[::-1]:
        return f'{len(frames)} calls were in progress, the report has {[int(m.group(1)) for m, _ in got]}'
    for (m, vals), f in zip(got, reversed(frames)):
        i = m.group(1)
        if m.group(3) not in {f'{f.modname}:{n}' for n in f.names}:
            return f'call {i} is reported as of {m.group(3)!r}, expected {f.modname!r} and one of {sorted(f.names)}'
        if int(m.group(2), 16) not in f.pcs:
            return f'call {i} ({m.group(3)!r}) is reported at {m.group(2)}, its code starts at {[hex(x) for x in f.pcs]}'
        if f.caller:
            ok = {x + len(f.caller.pre) + len(f.caller.op) for x in f.caller.pcs}
            if m.group(4) is None or int(m.group(4), 16) not in ok:
                return f'call {i} ({m.group(3)!r}) is reported from {m.group(4)}, expected {[hex(x) for x in ok]}'
        want = [f'{"param" if k < len(f.params) else "local"} [{k}] = {show(t, v)}' for k, (t, v) in enumerate(zip(f.params + f.locals, f.vals))]
        # how a v128 is shown is left open
        if len(vals) != len(want) or any(a != b and not (b.endswith('unknown size') and a.startswith(b[:-12])) for a, b in zip(vals, want)):
            return f'call {i} ({m.group(3)!r}) has {vals}, expected {want}'
    return None


def run(seed, binaries, d):
    r = random.Random(seed)
    encs, chain, frames, msg, top = make(r)
    cmds = []
    for i, (n, b) in enumerate(encs):
        fn = f'{d}/t{i}'
        with open(fn, 'wb') as f:
            f.write(b)
        cmds += [f':load {fn}', f':register {n}']
    cmds.append(' '.join([f':invoke x{len(chain) - 1}'] + [f'{v:032x}' if t == 'v128' else str(v) for t, v in zip(top.params, top.args)]))
    inp = '\n'.join(cmds + [''])
    bad = []
    for cfg, b in binaries:
        p = subprocess.run([b, '--repl'], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=tool_env(leaks=True), timeout=120, cwd='/')
        out = p.stdout.decode('utf-8', 'replace')
        rp = dict(commands=cmds, modules=[x.hex() for _, x in encs], out=out, err=p.stderr.decode('utf-8', 'replace')[-4000:])
        if p.returncode:
            bad.append((cfg, f'trace:crash:{crash_summary(p.stderr, p.returncode)[:100]}', f'trace: {crash_summary(p.stderr, p.returncode)}', rp))
            continue
        w = judge(out, frames, msg)
        if w:
            bad.append((cfg, f'trace:{seed}', w, rp))
    return len(frames), bad
