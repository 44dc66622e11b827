#!/usr/bin/env python3
"""Compile /repo/src (current working tree) and one check with sanitizers into /verif/build, cached by content hash."""
import sys, os, hashlib, subprocess, concurrent.futures, glob, fcntl, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,nonnull-attribute', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
BASE = ['-g1', '-O1', '-D_GLIBCXX_ASSERTIONS', '-w']
LIBF = BASE + SAN + ['-std=c++11']
CHKF = BASE + SAN + ['-std=c++17', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + os.path.join(ROOT, 'mc')]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:20]
def rd(p): return open(p, 'rb').read()

class Unlinked(Exception): pass

def sh(cmd, fallback=False):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode and fallback and b'undefined reference' in r.stdout: raise Unlinked()
    if r.returncode:
        sys.stdout.write(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')); sys.stdout.flush()
        raise SystemExit(2)

def headers_hash(dirs):
    fs = []
    for d in dirs:
        for base, _, names in os.walk(d):
            fs += [os.path.join(base, n) for n in names if n.endswith(('.hpp', '.h', '.in', '.inc'))]
    return sha(*[x for f in sorted(fs) for x in (f, rd(f))])

def compile_one(src, flags, hh, sub, extra_key=''):
    h = sha(src, rd(src), hh, ' '.join(flags), extra_key)
    d = os.path.join(BUILD, sub); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, os.path.basename(src).rsplit('.', 1)[0] + '-' + h + '.o')
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        sh(['g++'] + flags + ['-c', src, '-o', tmp]); os.rename(tmp, out)
    return out

def build(check):
    # code that names an in-class constant by reference links only where the optimiser folds the load, as the repository's -Os does
    for opt in ([], ['-O2']):
        try: return build_with(check, opt)
        except Unlinked: pass
    return build_with(check, ['-Os', 'nosan'], last=True)

def build_with(check, opt, last=False):
    """check: id such as C01 -> binary path. A check may have a sidecar mc/checks/<id>_*.flags with directives."""
    os.makedirs(BUILD, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(ROOT, 'mc/checks', check + '_*.cpp')))
    if not srcs: print('no check source for', check); raise SystemExit(2)
    opts = {}
    for f in glob.glob(os.path.join(ROOT, 'mc/checks', check + '_*.flags')):
        for line in open(f):
            if '=' in line and not line.startswith('#'):
                k, v = line.strip().split('=', 1); opts[k] = v.replace('@ROOT@', ROOT).replace('@REPO@', REPO)
    libf = LIBF + opts.get('lib', '').split()
    if 'nosan' in opts: libf = [f for f in libf if f not in SAN]
    chkf = CHKF + opts.get('check', '').split()
    if 'nosan' in opts: chkf = [f for f in chkf if f not in SAN]
    if 'nosan' in opt: libf = [f for f in libf if f not in SAN]; chkf = [f for f in chkf if f not in SAN]
    libf = libf + [f for f in opt if f != 'nosan']; chkf = chkf + [f for f in opt if f != 'nosan']
    link = opts.get('link', '').split()
    skip = set(opts.get('skip', '').split())
    lib = [s for s in sorted(glob.glob(REPO + '/src/*.cpp')) if os.path.basename(s) not in skip]
    extra = [s for s in opts.get('extra', '').split()]
    hh_lib = headers_hash([REPO + '/include', REPO + '/src'] + ([os.path.join(ROOT, 'mc')] if 'lib' in opts else []))
    hh_chk = headers_hash([REPO + '/include', REPO + '/src', os.path.join(ROOT, 'mc')])
    flav = 'obj'
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        cf = [ex.submit(compile_one, s, chkf, hh_chk, 'chk') for s in srcs]
        lf = [ex.submit(compile_one, s, libf, hh_lib, flav) for s in lib + extra]
        cobjs = [f.result() for f in cf]; objs = [f.result() for f in lf]
    key = sha(*[o for o in cobjs + objs], ' '.join(link))
    out = os.path.join(BUILD, 'bin', check + '-' + key)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        sh(['g++'] + [f for f in chkf if f.startswith('-f')] + cobjs + objs + link + ['-lcrypto', '-lpthread', '-o', tmp], fallback=not last); os.rename(tmp, out)
    return out

if __name__ == '__main__':
    try:
        if sys.argv[1] == '--all':
            ids = sorted({os.path.basename(f).split('_')[0] for f in glob.glob(os.path.join(ROOT, 'mc/checks/C*_*.cpp'))})
            build(ids[0])
            with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex: list(ex.map(build, ids[1:]))
        else:
            print(build(sys.argv[1]))
    except SystemExit as e:
        raise
