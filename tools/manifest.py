#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = [
    # property, technique, level, note
    ('C01', 'differential execution monitor against V8 under ASan/UBSan and in release', 'exploration',
     'Every scalar opcode on edge and random operands through random operand routes; trusts V8.'),
    ('C02', 'differential execution monitor (random programs) against V8 under ASan/UBSan and in release', 'exploration',
     'Random structured programs, branch tables, deep nesting, many locals, long tail-call chains; trusts V8.'),
    ('C03', 'differential execution monitor against V8 under ASan/UBSan and in release', 'exploration',
     'Every SIMD opcode and immediate on edge and random operands through random routes; trusts V8.'),
    ('C04', 'byte-array memory monitor plus differential execution against V8, under ASan/UBSan and in release', 'exploration',
     'Every load/store/bulk opcode, offsets and sizes at the edges, page sizes 1 and 65536, several memories.'),
    ('C05', 'differential execution monitor (table/global/segment histories over linked modules) against V8', 'exploration',
     'Histories over linked modules sharing tables and globals; trusts V8.'),
    ('C06', 'differential execution monitor (exception-heavy programs, cross-module handler chains) against V8', 'exploration',
     'Random handler nests, shared tags, rethrow, tail calls out of handlers; two known V8 bugs are worked around.'),
    ('C07', 'verdict monitor over generated and mutated modules (independent validator, arbitrated by V8 and wabt), ASan/UBSan/LSan', 'exploration',
     'Opcode typing matrix, structured and byte mutations; a difference is reported only when a second implementation agrees with the model.'),
    ('C08', 'ASan, UBSan, LSan, MSan, assertions and heap accounting on mutated modules and programs', 'exploration',
     'Mutated bytes through the loader, mutated but valid programs through the interpreter, size extremes.'),
    ('C09', 'differential monitor of linking verdicts and shared state (chains of modules) against V8; page-size rule matrix', 'exploration',
     'Imports at and near the exported types, re-exports, aliases, segments and start functions over imported state; trusts V8, page sizes by rule.'),
    ('C10', 'differential monitor: programs of numbered effects stopped by traps, exceptions, limits and exits, state read back and compared with V8', 'exploration',
     'Two linked modules, every kind of stop at every depth, repeated invocations, memory use watched; trusts V8.'),
    ('C12', 'allocation-fault injection with ASan/UBSan, heap accounting and outcome monitor', 'fault_enumeration',
     'Each allocation of loading, instantiating and running a set of programs fails in turn (and all later ones).'),
    ('C13', 'outcome monitor: the same histories with and without interrupts at random points', 'exploration',
     'Uninterrupted runs of the release build are the reference; interrupts at every event granularity, asynchronous ones for waits.'),
    ('C14', 'outcome monitor: the same histories on 11 builds with other tuning options and with the run time options', 'exploration',
     'The default release build is the reference; assertions enabled in the variants; self-checking thread guests.'),
    ('C15', 'linearizability checker over recorded atomic histories, counter/lock/litmus invariants, TSan, V8 comparison of sequences', 'exploration',
     'All widths and operations on overlapping words by 2-6 threads; single-thread sequences of every atomic opcode.'),
    ('C16', 'offline checker over recorded wait/notify logs (conservation, timing, overlap), TSan/ASan', 'exploration',
     'Short and unlimited waits, token rings, growth interrupting waiters; 50 us clock tolerance.'),
    ('C17', 'offline checker over recorded memory.grow/size logs (serial explanation), data and progress monitors, TSan/ASan/assertions', 'exploration',
     'Growers, bystanders, short-lived growers and growth in start functions; a hang is reported only when it repeats.'),
    ('C18', 'offline checker over recorded spawns and starts, exit-status monitor over busy programs, TSan/ASan/assertions', 'exploration',
     'Spawn trees with id reuse, every kind of end by every kind of thread, spawn failure by limits and start functions.'),
    ('C19', 'POSIX shadow model of the descriptor table, system call trace monitor (strace), descriptor race guest, ASan/MSan/TSan/assertions', 'exploration',
     'Descriptor-heavy histories through every open/close/renumber path; every host descriptor closed exactly once; 2-6 racing threads.'),
    ('C20', 'POSIX shadow model: each call of a random history compared with a model run on a twin directory, final trees compared', 'exploration',
     'Files, directories, links, times, vectored and positioned I/O, listings; escapes by design of path resolution are not generated.'),
    ('C21', 'memory monitor: the whole linear memory compared around each WASI call with hostile arguments, ASan/MSan/assertions', 'exploration',
     'Every function of both ABI versions with wild pointers, lengths, descriptors and flags on a two-page memory.'),
    ('C22', 'offline checker over the logs of both ends of polls, transfers and clock readings (one time base), TSan/ASan/assertions', 'exploration',
     'Polls on pipes, files and timers with events at chosen delays; blocking and non-blocking transfers over pipes and sockets; memory growth meanwhile.'),
    ('C23', 'echo monitor: what a guest reports of its arguments, environment, directories and input is compared byte for byte; exit status monitor', 'exploration',
     'Arbitrary byte strings, every kind of stream and of end; exit codes 0 to 255.'),
    ('C11', 'model monitor of call depth, live operand cells and effects under limits around what a program needs; heap monitor (preloaded) for memory limits', 'exploration',
     'Random call graphs over two modules, threads, start functions; memory kinds one by one; every limit value class.'),
    ('C24', 'model monitor over sessions of generated shared libraries: load and init order, resolution, areas, run-time loading; ASan, assertion and release builds', 'exploration',
     'Random library graphs with dylink.0 metadata, aliases, weak and missing symbols, growth, dlopen/dlsym histories with failures.'),
    ('C27', 'model monitor over call graphs crossing between wasm and host functions of an embedder (C API), with heap-error and assertion builds', 'exploration',
     'Random graphs of host and wasm functions with every value type, tail and indirect calls, callbacks, restarts, traps and exceptions.'),
    ('C28', 'outcome and elapsed-time monitor over endless programs (alone, threaded, dynamically linked) given limits or ended by a thread; ASan, assertion, release and userland-scheduler builds', 'exploration',
     '30 shapes of endless activity in every place and mix; ends within 15 s, hangs reported when they repeat; one known finding.'),
    ('C25', 'round-trip monitor: saved modules are decoded, reloaded, saved again, reflected by V8 and run; ASan; failing writes injected', 'exploration',
     'Random modules of every section kind, programs of the other checks saved and run.'),
    ('C26', 'model monitor over sessions of commands and command lines (ASan and release builds)', 'exploration',
     'Random sessions of load, register, invoke, global-get and malformed input, each answer predicted.'),
]
NOT_APPLICABLE = []
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
done = {c[0] for c in CHECKS}
na = [dict(property=p, reason='check not built yet') for p in props if p not in done]
na = [x for x in na if x['property'] not in {n['property'] for n in NOT_APPLICABLE}] + NOT_APPLICABLE
m = dict(version=1, setup_cmd='python3 -m vp.build asan rel tsan dbg msan v1 v2 v3 v4 v5 v6 v7 v8 v9 v10 v11 oom',
         checks=[dict(property=p, quick_cmd=f'python3 checks/{p.lower()}.py',
                      thorough_cmd=f'VERIF_TIER=thorough python3 checks/{p.lower()}.py',
                      evidence_file=f'evidence/{p}.json', technique=t, level=l, level_note=n)
                 for p, t, l, n in CHECKS],
         not_applicable=na,
         notes='All checks build /repo out of tree into /verif/.build (git-ignored) with toywasm\'s own CMake files. '
               'No source hooks are needed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
