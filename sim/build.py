#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.

Every object is keyed by the content it was built from (flags, all headers of
/repo and of the simulator, its own source), so nothing stale is ever linked.
Usage: build.py [scenario-file ...]  ->  prints the path of the executable.
"""
import hashlib, os, subprocess, sys, glob, re, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PVSIM_REPO', '/repo')
BUILD = os.environ.get('PVSIM_BUILD', os.path.join(VERIF, 'build'))
SIM = os.path.join(VERIF, 'sim')
CXX = os.environ.get('PVSIM_CXX', 'g++')
REDEF = ['malloc', 'free', 'calloc', 'realloc', 'memcpy', 'memmove', 'memset', 'memcmp']
DIRS = ['misc', 'pv', 'factory', 'property', 'copy', 'pvMisc', 'json']

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]

def rd(p):
    with open(p, 'rb') as f:
        return f.read()

def headers_hash():
    out = []
    for base in (os.path.join(REPO, 'src'), SIM):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if not x.startswith('O.'))
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.inc')):
                    p = os.path.join(d, f)
                    out.append(os.path.relpath(p, base).encode() + b'\0' + rd(p))
    return sha(*out)

def version_header(gen):
    cfg = rd(os.path.join(REPO, 'configure/CONFIG_PVDATA_VERSION')).decode()
    v = dict(re.findall(r'^\s*(EPICS_PVD_\w+)\s*=\s*(\S+)', cfg, re.M))
    txt = '#ifndef PVDVERSION_H\n#  error include pvdVersion.h, not this header\n#endif\n'
    for k in ('MAJOR_VERSION', 'MINOR_VERSION', 'MAINTENANCE_VERSION', 'DEVELOPMENT_FLAG'):
        txt += '#define EPICS_PVD_%s %s\n' % (k, v.get('EPICS_PVD_' + k, '0'))
    os.makedirs(os.path.join(gen, 'pv'), exist_ok=True)
    p = os.path.join(gen, 'pv', 'pvdVersionNum.h')
    if not os.path.exists(p) or rd(p).decode() != txt:
        with open(p, 'w') as f:
            f.write(txt)
    return txt

def main(scen):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(BUILD, 'gen')
    vtxt = version_header(gen)
    hh = sha(headers_hash(), vtxt)
    epics = '/opt/vp/epics-base/include'
    inc = ['-I' + gen, '-I%s/src' % REPO] + ['-I%s/src/%s' % (REPO, d) for d in DIRS] + [
        '-I%s/compiler/%s' % (epics, 'clang' if 'clang' in CXX else 'gcc'), '-I%s/os/Linux' % epics, '-I' + epics, '-I' + os.path.join(SIM, 'rt')]
    base = ['-std=gnu++17', '-D_GNU_SOURCE', '-D_DEFAULT_SOURCE', '-D_X86_64_', '-DUNIX', '-Dlinux', '-g1', '-fno-pie', '-w',
            '-fno-omit-frame-pointer']
    tsan = ['-O1', '-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0']
    jobs = []
    libsrc = []
    for d in DIRS:
        libsrc += sorted(glob.glob('%s/src/%s/*.cpp' % (REPO, d)))
    for p in libsrc:
        jobs.append((p, base + tsan + ['-DPVD_INTERNAL'] + inc))
    for p in sorted(glob.glob(SIM + '/rt/*.cpp')):
        jobs.append((p, base + ['-O2'] + inc))
    for s in scen:
        jobs.append((os.path.join(SIM, 'scen', s + '.cpp'), base + tsan + ['-I' + os.path.join(SIM, 'scen')] + inc))
    objdir = os.path.join(BUILD, 'obj')
    os.makedirs(objdir, exist_ok=True)
    todo, objs = [], []
    for p, flags in jobs:
        key = sha(CXX, ' '.join(flags), os.path.basename(p), rd(p), hh)
        o = os.path.join(objdir, '%s.%s.o' % (os.path.basename(p), key))
        objs.append(o)
        if not os.path.exists(o):
            todo.append((p, flags, o))
    def cc(j):
        p, flags, o = j
        tmp = o + '.tmp%d' % os.getpid()
        r = subprocess.run([CXX] + flags + ['-c', p, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return p + ':\n' + r.stdout.decode()
        if '-fsanitize=thread' in flags:
            subprocess.check_call(['objcopy'] + ['--redefine-sym=%s=simw_%s' % (f, f) for f in REDEF] + [tmp])
        os.rename(tmp, o)
        return None
    todo.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(cc, todo) if e]
    if errs:
        sys.stderr.write('\n'.join(errs)[:8000] + '\n')
        sys.exit(2)
    exe = os.path.join(BUILD, 'simrun.%s.%s' % ('_'.join(scen) if len(scen) < 4 else 'all', sha(*objs)))
    if not os.path.exists(exe):
        tmp = exe + '.tmp%d' % os.getpid()
        cmd = [CXX, '-no-pie', '-rdynamic', '-o', tmp] + objs + ['-L/usr/lib/x86_64-linux-gnu', '-lCom', '-ldl', '-lpthread', '-lm']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode()[:8000])
            sys.exit(2)
        os.rename(tmp, exe)
    # bound the cache
    fs = sorted(glob.glob(objdir + '/*.o') + glob.glob(BUILD + '/simrun.*'), key=os.path.getmtime)
    keep = set(objs) | {exe}
    for o in keep:
        os.utime(o)
    if len(fs) > 1500:
        for f in fs[:-1000]:
            if f not in keep:
                os.unlink(f)
    print(exe)

if __name__ == '__main__':
    a = sys.argv[1:]
    if not a:
        a = sorted(os.path.basename(f)[:-4] for f in glob.glob(SIM + '/scen/*.cpp'))
    main(a)
