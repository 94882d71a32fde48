"""C26: the command line and the REPL pass values and report outcomes
faithfully: sessions against a model of what each command means."""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, trace  # noqa: E402
from vp import wasm as W  # noqa: E402
from vp.common import NPROC, crash_summary, run_check, scratch_dir, tool_env  # noqa: E402
from vp.ops import rnd  # noqa: E402
from vp.wasm import EXTERNREF, F32, F64, FUNCREF, I32, I64, V128  # noqa: E402

PROMPT = 'qPz7'
BITS = {I32: 32, F32: 32, I64: 64, F64: 64}
TNAME = {I32: 'i32', I64: 'i64', F32: 'f32', F64: 'f64', V128: 'v128', FUNCREF: 'funcref', EXTERNREF: 'externref'}
TYPES = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]
NAMES = ['f', 'g', 'fa', 'fab', 'F', 'add', 'a.b', 'a-b', 'a_b', '', 'é', '日本', '😀', 'a b', ' a', 'a ', 'a"b', 'a\\b', 'a\\x41', 'A\x00', 'A', 'A\x00B',
         '\x00', '\t', '\n', 'x' * 300, 'x' * 299, ':', 'load', '_start', '0', '1', '-1', 'null', '%s%n', "'", '$1', '#', '\x7f', ' ']


def value(r, t):
    if t in BITS:
        return rnd(r, t) & (1 << BITS[t]) - 1 if r.random() < 0.8 else r.getrandbits(BITS[t])
    if t == V128:
        return r.choice([r.getrandbits(128), 0, (1 << 128) - 1, 1, 1 << 127, 1 << 64, r.getrandbits(64)])
    if r.random() < 0.3:
        return None
    if t == EXTERNREF:
        return r.choice([0, 1, 7, r.getrandbits(32), r.getrandbits(63), (1 << 64) - 2])
    return r.choice([1, 7, r.getrandbits(32) + 1, r.getrandbits(63) + 1, (1 << 64) - 2])


def spell(r, t, v):
    """one of the ways of writing a value"""
    if t == V128:
        s = f'{v:032x}'
        return s.upper() if r.random() < 0.2 else s
    if v is None:
        return 'null'
    k = r.randrange(7)
    return (f'{v}', f'{v}', f'0x{v:x}', f'0X{v:X}', f'0{v:o}', f'+{v}' if v else '0', f'0x{v:024x}')[k]


def show(t, v):
    if t == V128:
        return f'{v:032x}:v128'
    return ('null' if v is None else f'{v}') + ':' + TNAME[t]


def wrong(r, t):
    """something which is not a value of the type"""
    c = ['abc', '0x', '1.5', '1e3', '12abc', '0xg', '--1', 'nan', '08', 'nul', 'null0', '"', '1,', ',1', '0x1p3', '1_000', '１']
    if t == V128:
        x = r.getrandbits(128)
        return r.choice(c + ['0', '1', 'null', f'{x:032x}'[:31], f'{x:032x}0', '0x' + f'{x:032x}'[2:], f'{x:032x}'[:31] + 'g', f'{x:032x}'[:16] + 'x' * 16,
                             f'{x:032x}'[:30] + 'zz', '0x' + f'{x:032x}'[:30], '-' + f'{x:032x}'[1:], f'{x:032x}'[:16] + '-' + f'{x:032x}'[17:],
                             f'{x:032x}'[:16] + '0x' + f'{x:032x}'[18:], '0x' + f'{x:032x}'])
    if t in BITS:
        c += ['null', str(1 << 64), '0x' + 'f' * 17, str(10 ** 30)]
        if BITS[t] == 32:
            c += [str(1 << 32), '0x100000000', str((1 << 64) - 1), '0x1ffffffff', '040000000000', str((1 << 32) + 5)]
    else:
        c += [str(1 << 64), 'NULL', '0x' + 'f' * 17]
    return r.choice(c)


def negative(r, t):
    """(spelling, value it may stand for)"""
    v = r.choice([1, 2, 5, 1 << BITS[t] - 1])
    return f'-{v}', (1 << BITS[t]) - v


def esc(r, nm):
    b = nm.encode()
    if not b:
        return '""'
    out = ''
    for x in b:
        if x <= 0x20 or x >= 0x7f or x in b'"\\' or r.random() < 0.1:
            out += '\\x%02x' % x
        else:
            out += chr(x)
    if r.random() < 0.1:
        out = '"' + out + '"'
    return out


class Mod:
    """a module, its functions and its state"""

    def __init__(self, r, regs):
        self.m = m = W.Module()
        self.funcs = {}      # name -> (params, results, how)
        self.globals = {}    # name -> [type, value]
        nms = r.sample(NAMES, 14)
        self.unknown = nms[12:]
        self.imp = None
        if regs and r.random() < 0.6:
            as_, src = r.choice(regs)
            self.imp = src
            m.import_(as_, 'cnt!', 0, W.leb_u(m.type([], [I32])))
        self.cnt = r.getrandbits(31)
        g = m.global_(I32, True, W.i32c(self.cnt))
        f = m.func([], [I32], body=W.gget(g) + W.i32c(1) + W.op(0x6a) + W.gset(g) + W.gget(g))
        m.export('cnt!', 0, f)
        self.funcs['cnt!'] = ([], [I32], ('cnt', None))
        if self.imp is not None:
            f = m.func([], [I32], body=W.call(0))
            m.export('imp!', 0, f)
            self.funcs['imp!'] = ([], [I32], ('imp', None))
        for nm in nms[:r.choice([1, 3, 5])]:
            ps = [r.choice(TYPES) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9, 40 if r.random() < 0.2 else 4]))]
            order = [r.randrange(len(ps)) for _ in range(r.choice([0, 1, 2, 3, len(ps)]))] if ps else []
            if r.random() < 0.4:
                order = list(range(len(ps)))
            f = m.func(ps, [ps[i] for i in order], body=b''.join(W.lget(i) for i in order))
            m.export(nm, 0, f)
            self.funcs[nm] = (ps, [ps[i] for i in order], ('pick', order))
        nm = nms[5]
        m.export(nm, 0, m.func([I32], [I32], body=b'\0'))
        self.funcs[nm] = ([I32], [I32], ('trap', None))
        for nm in nms[6:6 + r.randrange(1, 4)]:
            t = r.choice(TYPES)
            v = None if t in (FUNCREF, EXTERNREF) else value(r, t)
            init = bytes([0xd0, W.VT[t]]) if v is None else W.const(t, v)
            g = m.global_(t, True, init)
            m.export(nm, 3, g)
            self.globals[nm] = [t, v]
            s = 'set ' + nm
            m.export(s, 0, m.func([t], [], body=W.lget(0) + W.gset(g)))
            self.funcs[s] = ([t], [], ('set', nm))
        self.bytes = m.encode()

    def count(self):
        self.cnt = (self.cnt + 1) & 0xffffffff
        return self.cnt

    def run(self, nm, args):
        ps, rs, (k, x) = self.funcs[nm]
        if k == 'trap':
            return 'trap'
        if k == 'cnt':
            out = [self.count()]
        elif k == 'imp':
            out = [self.imp.count()]
        elif k == 'set':
            self.globals[x][1] = args[0]
            out = []
        else:
            out = [args[i] for i in x]
        return result(rs, out)


def result(ts, vs):
    return 'Result: ' + (', '.join(show(t, v) for t, v in zip(ts, vs)) if ts else '<Empty Stack>')


class Session:
    """commands and what each must give"""

    def __init__(self, r, d, n):
        self.r, self.d = r, d
        self.mods = []       # (name, Mod)
        self.regs = []
        self.steps = []      # (command bytes, [acceptable outcomes])
        self.nf = 0
        self.kinds = {}
        while len(self.steps) < n:
            self.step()

    def add(self, kind, cmd, *want):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.steps.append((cmd.encode() + b'\n', want))

    def file(self, b):
        fn = os.path.join(self.d, f'm{self.nf}.wasm')
        self.nf += 1
        with open(fn, 'wb') as f:
            f.write(b)
        return fn

    def pick(self):
        """a module and the prefix which addresses it"""
        if self.r.random() < 0.4:
            return self.mods[-1][1], ':'
        nm, m = self.r.choice(self.mods)
        if nm is None:
            return self.mods[-1][1], ':'
        return m, f':module {nm} '

    def step(self):
        r = self.r
        if not self.mods or r.random() < 0.08 and len(self.mods) < 12:
            return self.load()
        x = r.random()
        m, pre = self.pick()
        if x < 0.04:
            as_ = f'r{len(self.regs)}'
            self.regs.append((as_, m))
            return self.add('register', f'{pre}register {as_}', '')
        if x < 0.07:
            what = r.choice(['missing', 'invalid', 'unlinkable'])
            if what == 'missing':
                fn = os.path.join(self.d, 'no such file')
            elif what == 'invalid':
                fn = self.file(r.choice([b'', b'\0asm', m.bytes[:-1], m.bytes + b'\x63', b'\0asm\2\0\0\0', m.bytes[:9] + b'\x7f' + m.bytes[10:]]))
            else:
                q = W.Module()
                q.import_('nowhere', 'f', 0, W.leb_u(q.type([], [])))
                fn = self.file(q.encode())
            return self.add('bad load', (':module nw load ' if r.random() < 0.5 else ':load ') + fn, 'error')
        if x < 0.09:
            return self.add('unknown module', f':module nosuch invoke {esc(r, "cnt!")}', 'error')
        if x < 0.095:
            self.mods, self.regs = [], []
            return self.add('init', ':init', '')
        if x < 0.25:
            if r.random() < 0.15:
                return self.add('unknown global', f'{pre}global-get {esc(r, r.choice(m.unknown + list(m.funcs)))}', 'error')
            nm = r.choice(list(m.globals))
            t, v = m.globals[nm]
            return self.add('global-get', f'{pre}global-get {esc(r, nm)}', result([t], [v]))
        if x < 0.3:
            return self.add('unknown function', f'{pre}invoke {esc(r, r.choice(m.unknown + list(m.globals)))}', 'error')
        nm = r.choice(list(m.funcs))
        ps = m.funcs[nm][0]
        args = [value(r, t) for t in ps]
        sp = [spell(r, t, v) for t, v in zip(ps, args)]
        head = f'{pre}invoke {esc(r, nm)}'
        j = ' ' if r.random() < 0.9 else '   '
        y = r.random()
        if y < 0.08:
            return self.add('extra argument', j.join([head] + sp + [r.choice(['0', '1', 'null'])]), 'error')
        if y < 0.16 and ps:
            del sp[r.randrange(len(sp))]
            # the types may fit all the same; then one is missing at the end
            return self.add('missing argument', j.join([head] + sp), 'error')
        if y < 0.3 and ps:
            i = r.randrange(len(ps))
            sp[i] = wrong(r, ps[i])
            return self.add('wrong argument', j.join([head] + sp), 'error')
        if y < 0.35 and ps and m.funcs[nm][2][0] == 'pick':
            i = r.randrange(len(ps))
            if ps[i] in BITS:
                sp[i], args[i] = negative(r, ps[i])
                return self.add('negative argument', j.join([head] + sp), 'error', m.run(nm, args))
        self.add('invoke ' + m.funcs[nm][2][0], j.join([head] + sp), m.run(nm, args))

    def load(self):
        r = self.r
        m = Mod(r, self.regs)
        nm = f'n{len(self.steps)}' if r.random() < 0.7 else None
        pre = f':module {nm} ' if nm else ':'
        self.mods.append((nm, m))
        if r.random() < 0.3:
            self.kinds['load-hex'] = self.kinds.get('load-hex', 0) + 1
            h = m.bytes.hex()
            self.steps.append((f'{pre}load-hex {len(m.bytes)}\n{h if r.random() < 0.8 else h.upper()}\n'.encode(), ('',)))
        else:
            self.add('load', pre + 'load ' + self.file(m.bytes), '')


def classify(out):
    """what the output of a command says"""
    s = out.decode('utf-8', 'replace').rstrip('\n')
    if '[trap]' in s:
        return 'trap' if 'unreachable' in s and 'Result' not in s else 'other trap'
    if 'rror' in s and 'Result' not in s:
        return 'error'
    return s


def repl(binary, steps, opts=()):
    inp = b''.join(s for s, _ in steps)
    p = subprocess.run([binary, '--repl', '--repl-prompt', PROMPT] + list(opts), input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=tool_env(leaks=True), timeout=120, cwd='/')
    parts = p.stdout.split(PROMPT.encode() + b'> ')[1:]
    return p.returncode, [classify(x) for x in parts[:len(steps)]], p.stderr, len(parts)


def session(c_seed, i, binaries):
    import random
    r = random.Random(f'C26:{c_seed}:{i}')
    d = scratch_dir('vp-c26-')
    try:
        s = Session(r, d, r.choice([10, 40, 90]))
        bad = []
        for cfg, b in binaries:
            rc, got, err, n = repl(b, s.steps)
            if rc != 0 or n != len(s.steps) + 1:
                bad.append((cfg, f'crash:{crash_summary(err, rc)[:100]}', f'the session ended with {rc} after {n - 1} of {len(s.steps)} commands: '
                            f'{crash_summary(err, rc)}', dict(steps=[x.decode() for x, _ in s.steps], err=err.decode('utf-8', 'replace')[-4000:])))
                continue
            for k, ((cmd, want), g) in enumerate(zip(s.steps, got)):
                if g not in want:
                    bad.append((cfg, f'{i}:{k}', f'{cmd[:200]!r} gave {g[:300]!r}, expected {" or ".join(map(repr, want))[:300]}',
                                dict(steps=[x.decode() for x, _ in s.steps[:k + 1]], got=got[:k + 1], want=[list(w) for _, w in s.steps[:k + 1]])))
                    break
        return s.kinds, len(s.steps), bad, {w[0] for _, w in s.steps}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cli(c_seed, i, binaries):
    """one command line: loads, registrations and invocations in order"""
    import random
    r = random.Random(f'C26c:{c_seed}:{i}')
    d = scratch_dir('vp-c26-')
    try:
        s = Session(r, d, 0)
        argv, want, ok = [], [], True
        s.pick = lambda: (s.mods[-1][1], ':')
        for _ in range(r.choice([1, 3, 8])):
            n = len(s.steps)
            while len(s.steps) == n:
                m0, r0 = list(s.mods), list(s.regs)
                s.step()
                cmd = s.steps[-1][0].decode()
                # a shell word cannot hold what follows, or there is no such option
                if cmd.count('\n') > 1 or not cmd.startswith((':load ', ':module n', ':invoke ')) or cmd.startswith(':module nosuch') or \
                        cmd.split(' ')[0 if cmd[1] != 'm' else 2] in (':load-hex', 'load-hex') or '\0' in cmd:
                    s.steps.pop()
                    s.mods, s.regs = m0, r0
            cmd, w = s.steps[-1][0].decode()[:-1], s.steps[-1][1]
            if cmd.startswith(':module'):
                cmd = ':' + cmd.split(' ', 2)[2]
            o, a = cmd[1:].split(' ', 1)
            argv += ['--' + o, a]
            want.append(w)
            if w[0] in ('error', 'trap'):
                ok = False if len(w) == 1 else None
                break
        tail = r.random()
        if ok and tail < 0.2:
            argv += r.choice([['--max-frames', 'abc'], ['--max-frames', str(1 << 32)], ['--max-stack-cells', '1x'], ['--max-memory', ''], ['--no-such-option'],
                              ['--load'], ['--invoke', ''], ['--load', '/nonexistent/x'], [os.path.join(d, 'none.wasm')]])
            ok = False
        elif ok and tail < 0.3:
            # run a command: its _start must exist
            m = W.Module()
            x = r.random()
            if x < 0.3:
                ok = False
            else:
                m.export('_start', 0, m.func([], [], body=b'\0' if x < 0.6 else b'\x01'))
                ok = x >= 0.6
            argv.append(s.file(m.encode()))
        bad = []
        for cfg, b in binaries:
            p = subprocess.run([b] + argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=tool_env(leaks=True), timeout=120, cwd='/')
            rp = dict(argv=argv, out=p.stdout.decode('utf-8', 'replace')[-3000:], err=p.stderr.decode('utf-8', 'replace')[-3000:], rc=p.returncode, ok=ok)
            res = [x for x in p.stdout.decode('utf-8', 'replace').split('\n') if x.startswith('Result')]
            exp = [[y for y in w if y.startswith('Result')] for w in want]
            exp = [x for x in exp if x]
            if p.returncode not in (0, 1):
                bad.append((cfg, f'cli:crash:{crash_summary(p.stderr, p.returncode)[:100]}', f'{argv} ended with {p.returncode}: {crash_summary(p.stderr, p.returncode)}', rp))
            elif ok is not None and (p.returncode == 0) != ok:
                bad.append((cfg, f'cli:{i}:status', f'{argv} ended with status {p.returncode}', rp))
            elif len(res) > len(exp) or any(a not in b for a, b in zip(res, exp)) or ok and len(res) != len(exp):
                bad.append((cfg, f'cli:{i}:output', f'{argv} printed {res}, expected {exp}', rp))
        return {'cli': 1}, len(want), bad, {str(w) for w in want}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def traced(c_seed, i, binaries):
    """a trap at the end of a chain of calls, and its report"""
    d = scratch_dir('vp-c26-')
    try:
        n, bad = trace.run(f'C26t:{c_seed}:{i}', binaries, d)
        return {'trace': 1, 'calls in traces': n}, n, bad, {f'trace of {n}'}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(c):
    c.rule = 'distinct expected outcomes of commands'
    build.build_many(['asan', 'rel'])
    both = [(k, build.cli(k)) for k in ('asan', 'rel')]
    ns, nc, nt = c.scale(1500, 30000), c.scale(2000, 20000), c.scale(400, 8000)
    kinds = c.coverage.setdefault('commands', {})
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fs = [ex.submit(session, c.seed, i, both) for i in range(ns)] + [ex.submit(cli, c.seed, i, both) for i in range(nc)] + [ex.submit(traced, c.seed, i, both) for i in range(nt)]
        for f in fs:
            ks, n, bad, seen = f.result()
            c.evaluations += n * len(both)
            for k, v in ks.items():
                kinds[k] = kinds.get(k, 0) + v
            for x in seen:
                c.distinct(x)
            for cfg, key, what, rp in bad:
                if len(c.violations) < 15:
                    c.violation(f'{cfg}:{key}', f'{cfg}: {what}', rp)
    c.log(f'{ns} sessions, {nc} command lines, {nt} traces: {kinds}')


if __name__ == '__main__':
    run_check('C26', main)
