#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: seeded simulation search for one property.

exit 0: held on everything explored; exit 1 + 'VIOLATION property=.. replay=..';
anything else: the check itself failed (never to be believed either way).
"""
import json, os, re, subprocess, sys, time, struct, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from checks import CHECKS, STUBS, REAL

def die(msg, code=3):
    print('CHECK-ERROR ' + msg)
    sys.exit(code)

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = CHECKS[prop]
    jobs = os.cpu_count() or 4
    r = subprocess.run([sys.executable, os.path.join(HERE, 'build.py')] + spec['files'], stdout=subprocess.PIPE)
    if r.returncode:
        die('build failed', 3)
    exe = r.stdout.decode().split()[-1]
    tb = time.time() - t0
    known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
             if k.get('property') == prop and k.get('status') == 'open']
    work = tempfile.mkdtemp(prefix='pvsim.')
    try:
        return run(prop, tier, seed, spec, jobs, exe, known, work, t0, tb)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def is_known(known, v):
    for k in known:
        if k['class'] == v['cls'] and re.search(k['match'], v['msg']):
            return k
    return None

def run(prop, tier, seed, spec, jobs, exe, known, work, t0, tb):
    scens = spec['scenarios']            # name -> runs in the quick tier
    mult = 1 if tier == 'quick' else spec.get('thorough_mult', 40)
    cap = spec.get('quick_sec', 40) if tier == 'quick' else spec.get('thorough_sec', 600)
    # --- determinism of the simulator itself, on this tree, in fresh processes
    def hashes(a):
        return subprocess.run([exe, 'hashes', a[0], str(seed), '0', '16'], stdout=subprocess.PIPE).stdout
    with ThreadPoolExecutor(jobs) as ex:
        names = [n for n in scens for _ in (0, 1)]
        res = list(ex.map(hashes, [(n,) for n in names]))
    for i in range(0, len(names), 2):
        if res[i] != res[i + 1] or not res[i]:
            # a CPU-time hang is the only verdict whose hash is fixed by construction
            die('nondeterminism in scenario %s' % names[i])
    det = 16 * len(scens)
    # --- search
    tot = sum(scens.values())
    agg = dict(runs=0, steps=0, switches=0, decisions=0, simtime=0.0, ops=0, faulty_runs=0, nontriv=0)
    faults, probes, samples, viol, knownhits, per = {}, {}, [], [], {}, {}
    il, st, nt = set(), set(), set()
    cpu = 0.0
    stop = []
    def worker(a):
        name, w = a
        count = int(scens[name] * mult)
        budget = cap * scens[name] / tot * 1.0
        start, out = w, []
        tw = time.time()
        while not stop:
            pre = os.path.join(work, '%s.%d.%d' % (name.replace('/', '_'), w, start))
            left = budget - (time.time() - tw)
            if left <= 0 or start >= count:
                break
            r = subprocess.run([exe, 'batch', name, str(seed), str(start), str(jobs), str(count), '%.2f' % left, pre],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode or not os.path.exists(pre + '.json'):
                out.append(('err', 'batch ended with %d: %s' % (r.returncode, r.stdout.decode(errors='replace')[-500:])))
                break
            d = json.load(open(pre + '.json'))
            sets = [set(struct.unpack('<%dQ' % (os.path.getsize(pre + s) // 8), open(pre + s, 'rb').read())) for s in ('.il', '.st', '.nt')]
            out.append(('ok', name, d, sets))
            if d['errs']:
                out.append(('err', 'harness error in %s: %s' % (name, d['errmsg'])))
                break
            if not d['violations']:
                break
            v = d['violations'][0]
            if is_known(known, v):
                start = v['index'] + jobs
                continue
            stop.append(1)
            break
        return out
    with ThreadPoolExecutor(jobs) as ex:
        allout = [x for o in ex.map(worker, [(n, w) for n in scens for w in range(jobs)]) for x in o]
    errs = [o[1] for o in allout if o[0] == 'err']
    for o in allout:
        if o[0] != 'ok':
            continue
        _, name, d, sets = o
        for k in agg:
            agg[k] += d[k]
        cpu += d['wall']
        p = per.setdefault(name, dict(runs=0, distinct=set()))
        p['runs'] += d['runs']; p['distinct'] |= sets[0]
        for k, v in d['faults'].items(): faults[k] = faults.get(k, 0) + v
        for k, v in d['probes'].items(): probes[k] = probes.get(k, 0) + v
        if len([s for s in samples if s.startswith(name)]) < 2:
            samples += ['%s %s' % (name, s) for s in d['samples'][:1]]
        il |= sets[0]; st |= sets[1]; nt |= sets[2]
        for v in d['violations']:
            v['scenario'] = name
            k = is_known(known, v)
            if k: knownhits[k['what']] = knownhits.get(k['what'], 0) + 1
            else: viol.append(v)
    ts = time.time() - t0 - tb
    nviol = 0
    reports = []
    if errs:
        die(errs[0])
    seen = set()
    viol.sort(key=lambda v: v['index'])
    for v in viol:
        key = v['cls']
        if key in seen or len(seen) >= 3:
            continue
        seen.add(key)
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s-%s-%s-%d.replay' % (prop, v['scenario'].replace('/', '_'), re.sub(r'\W+', '_', v['cls']), v['index']))
        m = subprocess.run([exe, 'min', prop, v['scenario'], str(seed), str(v['index']), '40' if tier == 'quick' else '120', rp], stdout=subprocess.PIPE)
        out = m.stdout.decode(errors='replace')
        if m.returncode:
            die('violation of %s (%s, run %d) did not pass the gate: %s' % (prop, v['cls'], v['index'], out), 4)
        r1 = subprocess.run([exe, 'replay', rp], stdout=subprocess.PIPE)
        r2 = subprocess.run([exe, 'replay', rp], stdout=subprocess.PIPE)
        if r1.returncode != 1 or r2.returncode != 1 or r1.stdout != r2.stdout:
            die('replay of %s does not reproduce: %s' % (rp, r1.stdout.decode(errors='replace')), 4)
        nviol += 1
        reports.append((v, rp, out, r1.stdout.decode(errors='replace')))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'exploration'), wall_s=round(wall, 2), violations=nviol,
        coverage=dict(
            evaluations=agg['runs'], distinct_nontrivial=len(nt), rule=spec['rule'], samples=samples[:6] or ['none'],
            runs_per_hour=int(agg['runs'] / max(ts, 0.01) * 3600), seeds_per_hour=int(agg['runs'] / max(ts, 0.01) * 3600),
            simulated_seconds=round(agg['simtime'], 3), scheduling_steps=agg['steps'], context_switches=agg['switches'],
            recorded_decisions=agg['decisions'], operations=agg['ops'],
            distinct_interleavings=len(il), interleaving_measure='64-bit hash over the whole run: every context switch, synchronisation operation, injected fault and logged API event in order',
            distinct_states=len(st), state_measure=spec.get('state_measure', 'not measured separately; see distinct_interleavings'),
            faults_injected=faults, runs_with_a_fault=agg['faulty_runs'], reach_probes=probes,
            per_scenario={n: dict(runs=p['runs'], distinct=len(p['distinct'])) for n, p in per.items()},
            determinism_reruns=det, build_s=round(tb, 1), search_s=round(ts, 1), worker_processes=jobs,
            real_components=REAL + spec.get('real', []), stub_components=STUBS + spec.get('stub', []),
            known_findings_hit=knownhits),
        assumptions=spec.get('assumptions', []) + ['clean runs are evidence over the sampled seeds, not a proof',
            'sequentially consistent memory at the granularity of instrumented accesses; weak-memory reorderings are not simulated'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s: %d runs (%d distinct), %.0f simulated s, faults %s, %.1f s (build %.1f)' % (prop, tier, agg['runs'], len(il), agg['simtime'], faults, wall, tb))
    print('  probes %s' % probes)
    for v, rp, o, rep in reports:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  class %s in %s; %s' % (v['cls'], v['scenario'], o.strip()))
        print('  ' + '\n  '.join(rep.split('\n')[1:14]))
    return 1 if nviol else 0

if __name__ == '__main__':
    sys.exit(main())
