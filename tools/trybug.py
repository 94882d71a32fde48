#!/usr/bin/env python3
"""Tries planted bugs in a private mount namespace where /repo and /verif are
copies under /tmp/trybug: trybug.py [-t] [-o] ID...
-t: also the repository's tests; -o: the demo on the unchanged tree as well;
-n: no build or demo, only the check; -c P: run check P instead."""
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = '/tmp/trybug'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    av = sys.argv[1:]
    flags = {a for a in av if a in ('-t', '-o', '-n')}
    av = [a for a in av if a not in flags]
    chk = None
    if '-c' in av:
        i = av.index('-c')
        chk = av[i + 1]
        del av[i:i + 2]
    ids = av or sorted(os.listdir('/verif/seeded'))
    if os.environ.get('TRYBUG') != '1':
        os.makedirs(T, exist_ok=True)
        sh(f'mkdir -p {T}/repo {T}/verif; rsync -a --delete /repo/ {T}/repo/; '
           f'rsync -a --delete --exclude /.build --exclude /evidence /verif/ {T}/verif/')
        os.execvpe('unshare', ['unshare', '-m', 'bash', '-c', f'mount --bind {T}/repo /repo && mount --bind {T}/verif /verif && '
                               f'cd /verif && exec python3 tools/trybug.py {" ".join(sys.argv[1:])}'], {**os.environ, 'TRYBUG': '1'})
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        d = f'/verif/seeded/{i}'
        meta = json.load(open(d + '/meta.json'))
        out = [i, meta['property']]
        sh('git -C /repo checkout -q -- .')
        if '-o' in flags:
            sh('bash /opt/vp/build.sh')
            r = sh(f'timeout 300 bash {d}/demo.sh', cwd='/repo')
            out.append(f'demo-unchanged={r.returncode}')
            if r.returncode:
                print(r.stdout[-1500:])
        r = sh(f'git -C /repo apply {d}/patch.diff')
        if r.returncode:
            print(i, 'does not apply:', r.stdout)
            continue
        if '-n' not in flags:
            r = sh('bash /opt/vp/build.sh')
            if r.returncode:
                print(i, 'does not build', r.stdout[-3000:])
                continue
            r = sh(f'timeout 300 bash {d}/demo.sh', cwd='/repo')
            out.append(f'demo-patched={r.returncode}')
            if '-t' in flags:
                sh('bash /opt/vp/test.sh /tmp/trybug/t.json')
                p = set(json.load(open('/tmp/trybug/t.json'))['passed'])
                out.append(f'tests-broken={sorted(base - p)}')
        t0 = time.time()
        p = chk or meta['property']
        r = sh(f'timeout 900 python3 checks/{p.lower()}.py', cwd='/verif', env={**os.environ, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
        caught = r.returncode == 1 and f'VIOLATION property={p}' in r.stdout
        out.append(f'check {p} rc={r.returncode} {"CAUGHT" if caught else "MISSED"} {time.time() - t0:.0f}s')
        if caught:
            out += [x[:200] for x in r.stdout.splitlines() if 'violation:' in x][:1]
        else:
            out.append(r.stdout[-700:])
        print(' | '.join(out), flush=True)
        sh('git -C /repo checkout -q -- .')


main()
