#!/usr/bin/env python3
"""seed.py new ID PROP: capture the diff of the scratch copy /tmp/seedwt into seeded/ID/patch.diff and verify it
   (builds, stable tests pass, demo passes on /repo and fails with the change). Scratch: /tmp/seedwt (cp -a /repo).
   seed.py verify ID: apply seeded/ID/patch.diff to a clean scratch copy and verify.
   seed.py detect ID [PROP]: run the check of its property with the change in place of /repo."""
import json, os, subprocess, sys, shutil
V = '/verif'; WT = os.environ.get('SEEDWT', '/tmp/seedwt')
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def wt_reset():
    if not os.path.isdir(WT): sh(f'cp -a /repo {WT}')
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=WT)
def in_ns(cmd, timeout=1200):
    # /repo is bound to the scratch copy inside a private mount namespace
    return sh(f"unshare -m bash -c 'mount --bind {WT} /repo && cd /repo && {cmd}'", timeout=timeout)
def verify(i):
    d = f'{V}/seeded/{i}'; wt_reset()
    r = sh(f'git apply {d}/patch.diff', cwd=WT)
    if r.returncode: print('apply failed', r.stdout); return False
    r = in_ns(f'bash /opt/vp/test.sh {WT}.json')
    try: o = json.load(open(f'{WT}.json'))
    except Exception: print(r.stdout[-2000:]); return False
    base = json.load(open('/opt/vp/BASELINE.json')); 
    stable = set(base.get('stable', base.get('passed', base.get('tests', []))) if isinstance(base, dict) else base)
    miss = stable - set(o['passed'])
    print(i, 'tests passed', len(o['passed']), 'failed', len(o['failed']), 'stable missing', len(miss), list(miss)[:5])
    if not o['passed']: print(r.stdout[-2500:])
    demo = f'{V}/seeded/{i}/demo.sh'
    sh(f'rm -rf {WT}.demo; cp -r {d} {WT}.demo')
    rp = in_ns(f'timeout 300 bash {WT}.demo/demo.sh')
    print('demo patched rc', rp.returncode, rp.stdout[-400:])
    wt_reset(); b = in_ns('bash /opt/vp/build.sh')
    rc = [in_ns(f'timeout 300 bash {WT}.demo/demo.sh') for _ in range(3)]
    print('demo clean rc', [x.returncode for x in rc], rc[0].stdout[-300:])
    ok = not miss and rp.returncode != 0 and all(x.returncode == 0 for x in rc)
    print(i, 'OK' if ok else 'NOT OK'); return ok
def detect(i, props=None):
    d = f'{V}/seeded/{i}'; p = props or [json.load(open(f'{d}/meta.json'))['property']]
    wt_reset()
    r = sh(f'git apply {d}/patch.diff', cwd=WT)
    if r.returncode: print('apply failed', r.stdout); return
    for q in p:
        r = in_ns(f'cd {V} && VERIF_SEED={os.environ.get("VERIF_SEED", "1")} python3 sim/check.py {q} quick')
        print(i, q, 'rc', r.returncode, r.stdout[-700:], flush=True)
    wt_reset()
if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'reset': wt_reset()
    elif c == 'verify':
        for i in sys.argv[2:]: verify(i)
    elif c == 'detect': 
        for i in sys.argv[2:]: detect(i)
    elif c == 'detectp': detect(sys.argv[2], sys.argv[3:])
