#!/usr/bin/env python3
"""Planted bugs.
seed.py new ID PROP 'needs' 'what'      : take the uncommitted diff of /tmp/seedrepo as the patch and /tmp/seed/demo.cpp as the demo
seed.py verify ID [--nocheck]           : in a scratch copy: applies, builds, tests pass, demo fails / passes, the property's check catches it
seed.py reset                           : (re)create /tmp/seedrepo from /repo HEAD"""
import sys, os, subprocess, json, shutil
V = '/verif'
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
MAKE = 'MAKEFILES=/opt/vp/deps.mk CPPFLAGS="-MMD -MP" make -j8 CXX=g++ AR=ar RANLIB=ranlib OPENSSL_DIR=/usr all'
def reset(d):
    subprocess.run(['rm', '-rf', d]); subprocess.run(['cp', '-a', '/repo', d], check=True)
    run('git checkout -q -- .', cwd=d)
def new(id, prop, needs, what, flags='', extra=''):
    d = f'{V}/seeded/{id}'; os.makedirs(d, exist_ok=True)
    p = run('git diff', cwd='/tmp/seedrepo').stdout
    assert p.strip(), 'no change in /tmp/seedrepo'
    open(d + '/patch.diff', 'w').write(p)
    src = open('/tmp/seed/demo.cpp').read()
    open(d + '/demo.cpp', 'w').write(src)
    if 'demo.hpp' in src:
        for h in ('mc/mc.hpp', 'mc/sim.hpp', 'mc/flows.hpp', 'tools/demo/demo.hpp'): shutil.copy(f'{V}/{h}', d)
    open(d + '/demo.sh', 'w').write(open(f'{V}/tools/demo/demo.sh').read().replace('@FLAGS@', flags).replace('@EXTRA@', extra)); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
def verify(id, check=True, props=None):
    d = f'{V}/seeded/{id}'; w = f'/tmp/sv.{id}'; meta = json.load(open(d + '/meta.json'))
    reset(w); ok = True; out = [id, meta['property']]
    def fail(m): out.append('FAIL ' + m)
    try:
        r = run(MAKE, cwd=w)
        if r.returncode: fail('base build'); return out
        r = run(f'bash {d}/demo.sh', cwd=w)
        if r.returncode: fail('demo on unchanged tree: ' + r.stdout[-300:])
        r = run(f'git apply {d}/patch.diff', cwd=w)
        if r.returncode: fail('apply ' + r.stdout); return out
        r = run(MAKE, cwd=w)
        if r.returncode: fail('build ' + r.stdout[-500:]); return out
        bad = []
        for t in run("sed -n '/^ci:/,/^[^\\t]*$/s/^\\t\\.\\/\\([A-Za-z0-9_]*\\)[ \\t]*$/\\1/p' Makefile", cwd=w + '/test').stdout.split():
            r = run(f'sleep 0 | timeout 120 ./{t} 2>&1 | cat > /dev/null; exit ${{PIPESTATUS[1]}}', cwd=w + '/test', executable='/bin/bash')
            if r.returncode: bad.append(t)
        if bad: fail('tests ' + ' '.join(bad))
        r = run(f'bash {d}/demo.sh', cwd=w)
        out.append('demo: ' + r.stdout.strip().split('\n')[-1][:150])
        if r.returncode == 0 or r.returncode == 99: fail(f'demo exit {r.returncode} with the patch')
        if check:
            for pr in (props or [meta['property']]):
                r = run(f'VP_REPO={w} ./run {pr} quick', cwd=V)
                caught = r.returncode == 1 and f'VIOLATION property={pr}' in r.stdout
                out.append(f'{pr}: ' + ('CAUGHT ' + next((l for l in r.stdout.split('\n') if l.startswith('violation:')), '')[:160] if caught else f'MISSED (exit {r.returncode}) ' + r.stdout[-200:]))
    finally:
        subprocess.run(['rm', '-rf', w])
    return out
if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'reset': reset('/tmp/seedrepo')
    elif c == 'new': new(*sys.argv[2:])
    elif c == 'verify':
        ids = [a for a in sys.argv[2:] if not a.startswith('--')]
        if ids == ['all']: ids = sorted(os.listdir(V + '/seeded'))
        for i in ids: print('\n   '.join(verify(i, '--nocheck' not in sys.argv)), flush=True)
