"""Helper to write /verif/seeded/<id> from textual edits (used while authoring
planted bugs; not used by any check)."""
import base64
import json
import os
import subprocess
import tempfile

SEED = '/verif/seeded'
HEAD = '''#!/bin/bash
# exit 0: behaves as it should; 1: it does not
D=$(cd "$(dirname "$0")" && pwd)
B=/repo/_build
TW=$B/clang-release/toywasm/toywasm
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
'''


def bug(id, prop, edits, demo, needs, breaks, files=None):
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    diff = b''
    with tempfile.TemporaryDirectory() as t:
        fs = {}
        for f, old, new in edits:
            s = fs.get(f) or open('/repo/' + f).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            fs[f] = s.replace(old, new)
        for f, s in fs.items():
            p = os.path.join(t, 'b', f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(s)
            r = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, '/repo/' + f, p], stdout=subprocess.PIPE)
            diff += r.stdout
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(HEAD + demo)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    for n, b in (files or {}).items():
        open(os.path.join(d, n), 'wb' if isinstance(b, bytes) else 'w').write(b)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def repl(wat, cmds, expect, flags=''):
    """demo text: load wat modules (name -> text) and compare Result lines."""
    s = ''
    script = ''
    for n, w in wat.items():
        if isinstance(w, str):
            s += f'wat2wasm --enable-all -o "$T/{n}.wasm" - <<"EOF" || exit 2\n{w}\nEOF\n'
        else:
            s += f'base64 -d > "$T/{n}.wasm" <<"EOF"\n{base64.b64encode(w).decode()}\nEOF\n'
        script += f':module {n} load {n}.wasm\n:module {n} register {n}\n'
    script += cmds
    s += f'$TW --repl --repl-prompt x {flags} > out 2>&1 <<"EOF"\n{script}\nEOF\n'
    s += f'grep -o "Result: .*\\|Error: .trap. [a-z ]*" out | sed "s/ *$//" > got\ncat > want <<"EOF"\n{expect}\nEOF\n'
    s += 'diff want got\n'
    return s
