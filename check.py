#!/usr/bin/env python3
"""Deterministic-simulation check of one property:  check.py C14 [--tier quick|thorough] [--seed N] [--wall S]
   check.py --replay FILE [--trace]   replays a minimised failure."""
import os, sys, json, time, subprocess, threading, queue, re, argparse, struct
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import simbuild
from config import CHECKS, KNOWN, ASSUME
NW = int(os.environ.get('SIM_WORKERS', '8'))

class Zygote:
    def __init__(self, exe, scen, variant, tags, trace=False):
        cmd = [exe, '--scenario', scen, '--variant', str(variant), '--tags', ','.join(tags)] + (['--trace'] if trace else [])
        env = dict(os.environ); env.pop('SIM_NOREEXEC', None)
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, stderr=None if trace else subprocess.DEVNULL)
    def ask(self, line):
        self.p.stdin.write(line + '\n'); self.p.stdin.flush()
        while True:
            l = self.p.stdout.readline()
            if not l: raise RuntimeError('simulator process ended on %r' % line)
            l = l.strip()
            if l.startswith('{'): return json.loads(l)
    def close(self):
        try: self.p.kill()
        except OSError: pass
        self.p.wait()

def fail_of(r): return r['status'] == 'violation' or r['status'] == 'error'

def write_replay(path, head, disabled, decs):
    with open(path, 'w') as f:
        for k, v in head.items(): f.write('%s %s\n' % (k, v))
        f.write('disabled %s\n' % ' '.join(map(str, sorted(disabled))))
        for d in decs: f.write('dec %s %d %d\n' % d)

def read_replay(path):
    head, dis, decs = {}, set(), []
    for l in open(path):
        p = l.split()
        if not p: continue
        if p[0] == 'dec': decs.append((p[1], int(p[2]), int(p[3])))
        elif p[0] == 'disabled': dis = set(map(int, p[1:]))
        else: head[p[0]] = l.strip()[len(p[0]) + 1:]
    return head, dis, decs

def skeleton(msg): return re.sub(r'[0-9.]+', '#', re.sub(r'^t=[0-9.]+s: ', '', msg))[:60]

def minimise(z, head, disabled, decs, tag, budget, tmp):
    t0 = time.time(); n = [0]; sk = skeleton(head.get('message', ''))
    def test(dis, ds):
        if time.time() - t0 > budget: return None
        n[0] += 1
        write_replay(tmp, head, dis, ds)
        r = z.ask('P ' + tmp)
        return r if fail_of(r) and r['tag'] == tag and skeleton(r['msg']) == sk else None
    def ddmin(items, tst):
        # items: list to keep as small as possible
        g = 2
        while items and time.time() - t0 < budget:
            k = max(1, len(items) // g); done = False; i = 0
            while i < len(items):
                c = items[:i] + items[i + k:]
                if tst(c): items = c; done = True
                else: i += k
                if time.time() - t0 > budget: break
            if k == 1 and not done: break
            if not done or k > 1: g = min(len(items) or 1, g * 2)
            if k == 1 and done: continue
        return items
    for kind in sorted({d[0] for d in decs}):
        c = [d for d in decs if d[0] != kind]
        if test(disabled, c): decs = c
    nops = int(head.get('nops', 0))
    keep = [i for i in range(nops) if i not in disabled]
    if nops: 
        keep = ddmin(keep, lambda k: test(set(range(nops)) - set(k), decs))
        disabled = set(range(nops)) - set(keep)
    decs = ddmin(decs, lambda d: test(disabled, d))
    if nops:
        keep = ddmin(keep, lambda k: test(set(range(nops)) - set(k), decs)); disabled = set(range(nops)) - set(keep)
    return disabled, decs, n[0]

def symbolize(exe, bt):
    if not bt: return []
    try:
        o = subprocess.run(['addr2line', '-Cfpe', exe] + ['0x' + b for b in bt], capture_output=True, text=True, timeout=20).stdout
        return [l[:200] for l in o.splitlines() if '??' not in l and '/sim/' not in l][:12]
    except Exception: return []

def known_match(prop, msg):
    for k in KNOWN:
        if k['property'] == prop and re.search(k['pattern'], msg): return k
    return None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--tier'); ap.add_argument('--seed', type=int)
    ap.add_argument('--wall', type=float); ap.add_argument('--replay'); ap.add_argument('--trace', action='store_true')
    ap.add_argument('--keep-going', action='store_true'); ap.add_argument('--nomin', action='store_true')
    a = ap.parse_args()
    if a.replay:
        head, dis, decs = read_replay(a.replay)
        exe = simbuild.build([head['harness']])[head['harness']]
        z = Zygote(exe, head['scenario'], head.get('variant', 0), head['tags'].split(',') if head.get('tags') else [], a.trace)
        r = z.ask('P ' + os.path.abspath(a.replay)); z.close()
        print(json.dumps(r, indent=1)); print('\n'.join(symbolize(exe, r.get('bt'))))
        print('reproduced' if fail_of(r) and r['tag'] == head['tag'] and r['hash'] == head['hash'] else 'NOT reproduced exactly')
        sys.exit(0 if fail_of(r) else 2)
    prop = a.prop; C = CHECKS[prop]
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1'))
    wall = a.wall or C['wall'][tier]
    t_start = time.time()
    cfgs = C['runs']            # list of (harness, scenario, variant, weight)
    exes = simbuild.build(sorted({c[0] for c in cfgs}))
    t_built = time.time()
    tags = C['tags']
    os.makedirs(HERE + '/replays', exist_ok=True); os.makedirs(HERE + '/evidence', exist_ok=True)
    work = HERE + '/build/work-%s-%d' % (prop, os.getpid()); os.makedirs(work, exist_ok=True)
    base = (seed * 1000003) % (1 << 40)
    # determinism gate: the same seeds in two fresh processes give identical traces
    gate = {}
    def gate_run(ci, k):
        h, s, v, w = cfgs[ci]; z = Zygote(exes[h], s, v, tags); out = []; t = time.time()
        try:
            for i in range(4):
                r = z.ask('R %d' % (base + i)); out.append((r['status'], r['hash'], r['vtime'], r['msg']))
                if time.time() - t > 5: break
        except Exception as e: out = [repr(e)]
        z.close(); gate[ci, k] = out
    gts = [threading.Thread(target=gate_run, args=(ci, k)) for ci in range(len(cfgs)) for k in range(2)]
    for t in gts: t.start()
    for t in gts: t.join()
    for ci, (h, s, v, w) in enumerate(cfgs):
        if any(x != y for x, y in zip(gate[ci, 0], gate[ci, 1])):
            print('ERROR: simulation of %s/%s is not deterministic: %s %s' % (h, s, gate[ci, 0], gate[ci, 1])); sys.exit(3)
    stop = threading.Event(); lock = threading.Lock()
    fails = []; known = {}; sums = []; procs = []; errors = []
    hashes = set()
    plan = []
    tot = float(sum(c[3] for c in cfgs))
    # each worker goes through all configurations, a share of the time each
    def worker(wid):
        try:
            for ci in range(len(cfgs)):
                h, s, v, w = cfgs[(ci + wid) % len(cfgs)]
                if stop.is_set(): return
                budget = wall * w / tot
                hf = '%s/h-%d-%d' % (work, wid, ci)
                z = Zygote(exes[h], s, v, tags)
                with lock: procs.append(z)
                z.p.stdin.write('B %d %d %d %d %d %s %s\n' % (base + 16 + wid, NW, 1 << 40, int(budget * 1000), 100000, hf, work + '/stop')); z.p.stdin.flush()
                got = False
                for l in z.p.stdout:
                    if not l.startswith('{'): continue
                    r = json.loads(l)
                    if r.get('summary'):
                        r['cfg'] = (h, s, v)
                        with lock:
                            sums.append(r)
                            try:
                                b = open(hf, 'rb').read(); hashes.update((s, v, x) for x in struct.unpack('<%dQ' % (len(b) // 8), b))
                            except OSError: pass
                        got = True
                        break
                    k = known_match(prop, r['msg'])
                    with lock:
                        if k: known.setdefault(k['id'], [k, 0, r])[1] += 1
                        else:
                            fails.append((h, s, v, r))
                            if not a.keep_going:
                                stop.set(); open(work + '/stop', 'w').close()
                z.close()
                if not got and not stop.is_set(): errors.append('worker for %s/%s ended early' % (h, s))
        except Exception as e: errors.append(repr(e))
    ths = [threading.Thread(target=worker, args=(i,)) for i in range(NW)]
    for t in ths: t.start()
    for t in ths: t.join()
    t_run = time.time() - t_built
    if errors and not fails:
        print('ERROR:', '; '.join(errors)); sys.exit(3)
    # livelock: runs that exceed the step bound (never seen on a healthy tree)
    nruns = sum(s['runs'] for s in sums); ninc = sum(s['inconclusive'] + s['timeouts'] for s in sums)
    out_viol = []
    if a.keep_going:
        agg = {}
        for h, s, v, r in fails:
            key = (r['tag'], re.sub(r'\d+', 'N', r['msg'])[:160]); agg.setdefault(key, [0, r['seed'], (h, s, v), r])[0] += 1
        for k, x in sorted(agg.items(), key=lambda kv: -kv[1][0]):
            print(x[0], k, 'seed', x[1], x[2], x[3]['msg'][:200]); print('   ' + '\n   '.join(symbolize(exes[x[2][0]], x[3].get('bt'))))
        for s in sums: print(s['cfg'], {k: s[k] for k in ('runs', 'fails', 'inconclusive', 'timeouts', 'vtime', 'wall', 'distinct', 'probes', 'others')})
        return
    for h, s, v, r in fails[:1]:
        path = '%s/replays/%s-%s-%d.replay' % (HERE, prop, s, r['seed'])
        z = Zygote(exes[h], s, v, tags)
        full = work + '/full'
        d = z.ask('D %d %s' % (r['seed'], full))
        note = ''
        if not fail_of(d):
            print('ERROR: seed %d does not fail again' % r['seed']); sys.exit(3)
        head, dis, decs = read_replay(full)
        head['message'] = r['msg'].replace('\n', ' '); head['harness'] = h; head['tags'] = ','.join(tags); head['property'] = prop
        disabled, mind = dis, decs; tries = 0
        if not a.nomin and d['tag'] != 'SIMERROR':
            disabled, mind, tries = minimise(z, head, dis, decs, d['tag'], C.get('min_s', 40) if tier == 'quick' else 300, work + '/cand')
        write_replay(path, head, disabled, mind)
        fin = z.ask('P ' + path); z.close()
        if not (fail_of(fin) and fin['tag'] == d['tag']):
            disabled, mind = dis, decs; write_replay(path, head, dis, decs)
            z = Zygote(exes[h], s, v, tags); fin = z.ask('P ' + path); z.close()
        z = Zygote(exes[h], s, v, tags); fin2 = z.ask('P ' + path); z.close()
        exact = fin['hash'] == fin2['hash'] and fail_of(fin2)
        head['hash'] = fin['hash']; head['message'] = fin['msg'].replace('\n', ' ')
        write_replay(path, head, disabled, mind)
        print('seed %d: [%s] %s' % (r['seed'], d['tag'], d['msg']))
        print('minimised: [%s] %s' % (fin['tag'], fin['msg']))
        for l in symbolize(exes[h], fin.get('bt')): print('    ' + l)
        print('replay: %d decisions (of %d), %d of %s operations kept, %d replays tried, exact=%s; %s --replay %s' % (
            len(mind), len(decs), int(head.get('nops', 0)) - len(disabled), head.get('nops', '?'), tries, exact, os.path.join(HERE, 'check.py'), path))
        out_viol.append(path)
    # evidence
    tot_c = {}; runs_with = {}; probes = {}
    for s in sums:
        for k, x in s['counters'].items(): tot_c[k] = tot_c.get(k, 0) + x
        for k, x in s['runs_with'].items(): runs_with[k] = runs_with.get(k, 0) + x
        for k, x in s['probes'].items(): probes[k] = probes.get(k, 0) + x
    vt = sum(s['vtime'] for s in sums)
    z = Zygote(exes[cfgs[0][0]], cfgs[0][1], cfgs[0][2], tags)
    samples = []
    for i in range(0 if out_viol else 3):
        r = z.ask('D %d %s' % (base + 16 + i, work + '/s'))
        head, dis, decs = read_replay(work + '/s')
        samples.append({'seed': r['seed'], 'scenario': cfgs[0][1], 'status': r['status'], 'trace_hash': r['hash'], 'simulated_s': r['vtime'], 'steps': r['steps'],
                        'nondefault_decisions': len(decs), 'first_decisions': ['%s#%d=%d' % d for d in decs[:12]]})
    z.close()
    if out_viol: samples.append({'seed': fails[0][3]['seed'], 'scenario': fails[0][1], 'status': 'violation', 'trace_hash': fails[0][3]['hash'], 'message': fails[0][3]['msg'][:300]})
    stuck = nruns and ninc > max(5, nruns * 0.02)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t_start, 1), 'violations': len(out_viol) + (1 if stuck and not out_viol else 0),
          'assumptions': ASSUME,
          'coverage': {
            'evaluations': nruns, 'distinct_nontrivial': len(hashes),
            'rule': 'one evaluation = one complete simulated run of a seed; distinct = different hash over the sequence of (scheduled thread, virtual time, system call, result, delivered segment, oracle event); non-trivial = at least one preemption or injected fault in the run',
            'samples': samples, 'runs_per_hour': int(nruns / max(t_run, 1e-3) * 3600), 'simulated_seconds': round(vt, 1), 'build_s': round(t_built - t_start, 1),
            'inconclusive_runs': ninc,
            'scenarios': sorted({'%s/%s' % (s['cfg'][0], s['cfg'][1]) + (':%d' % s['cfg'][2]) for s in sums}),
            'injected_and_observed': {k: x for k, x in sorted(tot_c.items()) if x}, 'runs_with': {k: x for k, x in sorted(runs_with.items()) if x},
            'probes': probes, 'distinct_outcomes': sum(s['states'] for s in sums),
            'real_code': C['real'], 'stubbed': C['stub'], 'known_findings_hit': {k: x[1] for k, x in known.items()}}}
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    subprocess.run(['rm', '-rf', work])
    for k, x in known.items(): print('KNOWN-FINDING: property=%s %s (seed %d, %d runs)' % (prop, x[0]['what'], x[2]['seed'], x[1]))
    print('%s %s: %d runs (%.0f/h), %d distinct, %.0f s simulated, %.1f s wall, %d inconclusive' % (prop, tier, nruns, nruns / max(t_run, 1e-3) * 3600, len(hashes), vt, time.time() - t_start, ninc))
    if not out_viol and stuck:
        # not a single failing history but runs that do not end within the step bound
        path = '%s/replays/%s-livelock.txt' % (HERE, prop)
        open(path, 'w').write('%d of %d runs starting at seed %d exceeded the step or time bound of a run\n' % (ninc, nruns, base + 16))
        out_viol.append(path)
    if out_viol:
        print('VIOLATION property=%s replay=%s' % (prop, out_viol[0])); sys.exit(1)
    if nruns == 0: print('ERROR: no run completed'); sys.exit(3)
    sys.exit(0)
if __name__ == "__main__": main()
