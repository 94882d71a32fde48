"""Shared driver: random programs, toywasm builds against V8."""
import importlib
import multiprocessing as mp
import random

from . import build, diff, progen
from .common import NPROC


def _gen(a):
    modname, fn, seed, i, kw = a
    return getattr(importlib.import_module(modname), fn)(random.Random(f'{seed}:{i}'), i, **kw)


def pgen(modname, fn, seed, n, **kw):
    """[module.fn(Random, i, **kw) for i in range(n)], in parallel."""
    with mp.get_context('fork').Pool(NPROC) as p:
        return p.map(_gen, [(modname, fn, seed, i, kw) for i in range(n)], chunksize=max(1, min(64, n // (NPROC * 4) or 1)))


def prog_case(r, i, kws=({},), steps_kw=None):
    """Default generator: one Prog per case."""
    kw = kws[i % len(kws)]
    p = progen.Prog(r, **kw)
    return p.steps(diff, **(steps_kw or {}))


def observe(c, cases, ref):
    """Count what the reference says happened."""
    st = c.coverage.setdefault('outcomes', {})
    for case, out in zip(cases, ref):
        for s, o in zip(case, out):
            c.evaluations += 1
            k = o if o.startswith('trap') else o.split(':')[0]
            k = s['op'] + ' ' + k[:60]
            st[k] = st.get(k, 0) + 1
            if s['op'] in ('invoke', 'global') and o.startswith(('ok', 'trap')):
                c.distinct((len(case[0].get('bytes', b'')), o))


def run(c, cases, plan, label='prog', cmp=diff.same, ref=None, shard=None):
    """plan: list of (config, opts, number of cases)."""
    ref = ref or diff.run_v8(cases)
    observe(c, cases, ref)
    c.coverage['programs'] = c.coverage.get('programs', 0) + len(cases)
    for cfg, opts, n in plan:
        if n <= 0 or c.violations:
            continue
        tw = diff.run_toywasm(build.cli(cfg), cases[:n], opts, shard=shard)
        nb = diff.compare(c, cases[:n], tw, ref[:n], f'{label}:{cfg}{"".join(opts)}', cmp=cmp)
        done = sum(1 for x in tw if x is not None)
        c.coverage[f'{label}_cases_{cfg}'] = done
        c.log(f'{label} {cfg} {" ".join(opts)}: {done} programs, {nb} differ')
    return ref
