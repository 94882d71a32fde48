"""C14: tuning options never change observable behaviour.  The same histories
run on builds with every tuning option away from its default, and with the run
time options; each outcome must equal that of the default release build."""
import multiprocessing as mp
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, decode, diff, guest, progcheck, threads  # noqa: E402
from vp.common import NPROC, run_check  # noqa: E402
import checks.c01  # noqa: E402
import checks.c02  # noqa: E402
import checks.c03  # noqa: E402
import checks.c05  # noqa: E402
import checks.c07  # noqa: E402
import checks.c13  # noqa: E402
import checks.c15  # noqa: E402

NOEH = ('v1', 'v2', 'v5')
RUNTIME = ['--disable-jump-table', '--disable-localtype-cellidx', '--disable-resulttype-cellidx']


def noeh(r, i):
    """Programs without exceptions."""
    k = i % 9
    if k < 4:
        return (checks.c02.br_tables, checks.c02.locals_case, checks.c02.deep_nest, checks.c02.xmod)[k](r)
    if k == 4:
        return checks.c05.case(r, i)
    return progcheck.prog_case(r, i, kws=(dict(eh=False), dict(eh=False, funcs=(8, 14)), dict(eh=False, trap=0.05)))


def huge(b):
    """Whether instances take gigabytes: then memory decides, not the code."""
    try:
        d = decode.decode(b)
    except Exception:
        return False
    return any(t[1] > 1 << 20 for t in d.get('table', [])) or any(m[1] << m[3] > 1 << 28 for m in d.get('memory', []))


def loads(r, i):
    """Modules, valid or not."""
    out = [diff.load(f'm{k}', x[0]) for k, x in enumerate(checks.c07.batch(r, i)) if not huge(x[0])]
    out = out or [diff.load('m0', b'\0asm\1\0\0\0')]
    for s in out:
        s.pop('ref', None)
    return out


class Quiet:
    """stands in for a check while cases are generated"""
    def __init__(self, c):
        self.sub_rng = c.sub_rng

    def distinct(self, k):
        pass


SETS = {}


def outcomes(job):
    cfg, opts, k = job
    return diff.run_toywasm(build.cli(cfg), SETS[k], opts, jobs=2)


def applies(cfg, opts, k):
    if k == 'prog' and cfg in NOEH:
        return False
    return not (k in ('scalar', 'simd', 'load', 'atomic') and 0 < len(opts) < 3)


def verdict(o):
    return o.split(':')[0] if isinstance(o, str) else o


def same_load(a, b):
    # an import which nothing provides is found at instantiation; what matters is whether it was
    return verdict(a) == verdict(b)


def same_load_noeh(a, b):
    # modules with tags or exceptions are invalid there
    return verdict(a) == verdict(b) or verdict(a) == 'invalid'


def main(c):
    c.rule = 'distinct (configuration, outcome) pairs'
    names = list(build.VARIANTS)
    build.build_many(['rel', 'dbg'] + names)
    n = c.scale(500, 20000)
    sets = {}
    sets['prog'] = [checks.c13.fix(x) for x in progcheck.pgen('checks.c13', 'case', f'C14:{c.seed}', n)]
    sets['noeh'] = [checks.c13.fix(x) for x in progcheck.pgen('checks.c14', 'noeh', f'C14n:{c.seed}', n)]
    sets['atomic'] = [checks.c13.fix(x) for x in progcheck.pgen('vp.atomics', 'case', f'C14a:{c.seed}', n // 3)]
    sets['load'] = progcheck.pgen('checks.c14', 'loads', f'C14l:{c.seed}', n)
    sets['scalar'] = checks.c01.make(Quiet(c), c.scale(6, 100))[0]
    sets['simd'] = checks.c03.make(Quiet(c), c.scale(4, 60))[0]
    c.log(' '.join(f'{k}:{len(v)}' for k, v in sets.items()))
    ref = {k: diff.run_toywasm(build.cli('rel'), v) for k, v in sets.items()}
    for k, v in ref.items():
        for case, o in zip(sets[k], v):
            if o is None or isinstance(o[0], dict):
                c.violation(f'reference:{k}', f'the default build does not survive: {o}', dict(case=diff.show(case)))
    if c.violations:
        return
    c.log('reference done')
    plan = [(v, []) for v in names] + [('rel', RUNTIME[i:i + 1]) for i in range(3)] + [('dbg', RUNTIME), ('rel', RUNTIME[1:])]
    if not c.quick():
        plan += [(v, RUNTIME) for v in names]
    SETS.update(sets)
    jobs = [(cfg, tuple(opts), k) for cfg, opts in plan for k in sets if applies(cfg, opts, k)]
    tot = {}
    with mp.get_context('fork').Pool(NPROC) as pool:
        for (cfg, opts, k), tw in zip(jobs, pool.imap(outcomes, jobs)):
            name = f'{cfg} {" ".join(opts)}'.strip()
            cmp = diff.same if k != 'load' else same_load_noeh if cfg in NOEH else same_load
            nb = diff.compare(c, sets[k], tw, ref[k], f'{k}:{cfg}{"".join(opts)}', cmp=cmp)
            n = tot.get(name, 0)
            for x in tw:
                for o in (x or []):
                    if isinstance(o, str):
                        n += 1
                        c.distinct((name, o[:100]))
            tot[name] = n
            if nb:
                c.log(f'{name} {build.VARIANTS.get(cfg, "")}: {k}: {nb} differ')
            if len(c.violations) >= 12:
                pool.terminate()
                return
    c.evaluations += sum(tot.values())
    c.coverage['outcomes compared'] = tot
    c.coverage['variants'] = {k: str(v) for k, v in build.VARIANTS.items()}
    c.log('outcomes ' + ' '.join(f'{k}={v}' for k, v in tot.items()))
    multi(c, names)


def multi(c, names):
    """self-checking multi-threaded guests on each configuration"""
    w, g = guest.wasm('stress'), guest.wasm('grow')
    jobs = []
    for v in names:
        for mode in range(5):
            if mode == 2 and v == 'v10':
                # its spinning threads take turns of 50 ms with the user level scheduler
                continue
            for i in range(c.scale(1, 6)):
                jobs.append((f'stress{mode}', v, ['--wasi', w, str(mode), str(c.seed * 100 + i), '4', '200' if v == 'v10' else '600'], dict(timeout=120)))
        jobs.append(('grow', v, ['--wasi', g, str(c.seed), '3', '20', '1', '2'], dict(timeout=120)))
    for tag, cfg, args, r in threads.many(jobs, 4):
        c.evaluations += 1
        if threads.bad(c, tag, cfg, args, r):
            continue
        if r.rc != 0 or b'end' not in r.out:
            c.violation(f'{tag}:{cfg}:status', f'{cfg} {args[2:]} ended with status {r.rc}: {r.err[-300:]}', dict(args=args, err=r.err[-4000:]))
            continue
        if tag == 'grow':
            continue
        mode, _, T, N = map(int, args[2:6])
        L = [[int(x) for x in l.split() if x != 'end'] for l in r.out.decode().splitlines()]
        want, tail = checks.c15.expected(mode, T, N)
        if L[0] != want or L[1] != tail:
            c.violation(f'{tag}:{cfg}', f'{cfg} {args[2:]}: {L[:2]}, expected {want} {tail}', dict(args=args, got=L))
        c.distinct((cfg, tag))


if __name__ == '__main__':
    run_check('C14', main)
