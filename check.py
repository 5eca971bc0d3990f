#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   explore a property with the simulator
   check.py replay FILE                  re-run a replay file

Builds the simulator around /repo's working tree in a scratch directory,
searches seeds on all cores, minimises and replays the first failure, and
writes evidence/PROPERTY.json."""
import collections, json, os, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = max(1, min(8, os.cpu_count() or 1))

# search seconds and least number of runs per tier
BUDGET = {'quick': (int(os.environ.get('VERIF_SECONDS', '45')), 6000, 240),
          'thorough': (int(os.environ.get('VERIF_SECONDS', '600')), 100000, 840)}

sys.path.insert(0, HERE)
from props import RULES, REAL, STUB  # noqa: E402


def fail(msg):
    print('check error: ' + msg)
    sys.exit(2)


def build(out):
    env = dict(os.environ)
    env.setdefault('HOME', '/root')
    p = subprocess.run([HERE + '/sim/build.sh', out, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        fail('the simulator could not be built around %s (status %d)' % (REPO, p.returncode))


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def sim(bindir, mode, timeout, **kw):
    """one simulator process; returns (status, output)"""
    env = {k: v for k, v in os.environ.items() if not k.startswith('VSIM_')}
    env.update({'VSIM_' + k.upper(): str(v) for k, v in kw.items()})
    env['VSIM_MODE'] = mode
    env['GOMAXPROCS'] = '1' if mode == 'search' else '2'
    env['GOTRACEBACK'] = 'single'
    try:
        p = subprocess.run([bindir + '/simtest', '-test.run', 'TestSim', '-test.timeout', '0'], env=env, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 'hang', (e.stdout or b'')[-2000:].decode(errors='replace') if isinstance(e.stdout, bytes) else str(e.stdout or '')


def replay_file(path, bindir):
    out = bindir + '/replay.out.json'
    rc, txt = sim(bindir, 'replay', 300, file=path, out=out, trace='1')
    if rc != 0:
        return None, rc, txt
    return json.load(open(out)), rc, txt


def do_replay(path):
    d = tempfile.mkdtemp(prefix='vsim.')
    try:
        build(d)
        want = json.load(open(path))
        got, rc, txt = replay_file(path, d)
        if got is None:
            print('the run takes the simulator process down: %s\n%s' % (rc, txt[:3000]))
            print('VIOLATION property=%s replay=%s' % (want['property'], path))
            return 1
        for l in got.get('trace') or []:
            print(l)
        for x in got['violations'] or []:
            print('%s: %s' % (x['class'], x['msg']))
        print('fingerprint %s, recorded %s: %s' % (got['fingerprint'], want.get('fingerprint'), 'identical' if got['fingerprint'] == want.get('fingerprint') else 'DIFFERENT'))
        if got['violations']:
            print('VIOLATION property=%s replay=%s' % (got['property'], path))
            return 1
        print('no violation on this tree')
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if len(sys.argv) < 2:
        fail('usage: check.py PROPERTY [quick|thorough]')
    if sys.argv[1] == 'replay':
        sys.exit(do_replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in BUDGET:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    secs, minruns, cap = BUDGET[tier]
    t0 = time.time()
    os.makedirs(HERE + '/evidence', exist_ok=True)
    os.makedirs(HERE + '/replays', exist_ok=True)
    d = tempfile.mkdtemp(prefix='vsim.')
    try:
        sys.exit(explore(prop, tier, seed, secs, minruns, cap, d, t0))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def explore(prop, tier, seed, secs, minruns, cap, d, t0):
    build(d)
    tbuild = time.time() - t0
    base = (abs(seed) % (1 << 20)) << 32
    # one seed is one execution: run a few twice, in two processes each
    detout = []
    for k in (1, 2):
        out = '%s/det.%d.json' % (d, k)
        rc, txt = sim(d, 'detlist', 120, prop=prop, **{'from': base + 1}, n=12, out=out)
        detout.append(json.load(open(out)) if rc == 0 else None)
    det_ok = detout[0] == detout[1]
    if detout[0] is not None and detout[1] is not None and not det_ok:
        # the code under test has a source of nondeterminism that has no seam:
        # what the runs show still counts, but a replay may differ
        print('note: the same seeds gave different executions in two processes: %s / %s' % tuple(detout))
    procs = []
    ts = time.time()
    for i in range(WORKERS):
        pid = os.fork()
        if pid == 0:
            try:
                rc, txt = sim(d, 'search', cap + 180, prop=prop, **{'from': base + 1 + i}, to=base + (1 << 31), step=WORKERS, time=secs, cap=cap,
                              minruns=(minruns + WORKERS - 1) // WORKERS, maxfound=1, out='%s/w%d.json' % (d, i), progress='%s/p%d' % (d, i))
                open('%s/s%d' % (d, i), 'w').write(json.dumps([rc, txt[-6000:] if rc == 0 else txt[:6000]]))
            finally:
                os._exit(0)
        procs.append(pid)
    for pid in procs:
        os.waitpid(pid, 0)
    tsearch = time.time() - ts
    tot = dict(runs=0, sim_seconds=0.0, steps=0, switches=0, preemptions=0)
    fired, stat, trouble = collections.Counter(), collections.Counter(), collections.Counter()
    shapes, found, samples, broken = set(), [], [], []
    for i in range(WORKERS):
        rc, txt = json.load(open('%s/s%d' % (d, i)))
        if rc != 0:
            try:
                s = int(open('%s/p%d' % (d, i)).read())
            except Exception:
                fail('a search process ended with %s before its first run:\n%s' % (rc, txt))
            broken.append((s, rc, txt))
            continue
        w = json.load(open('%s/w%d.json' % (d, i)))
        for k in tot:
            tot[k] += w[k]
        fired.update(w['fired'] or {})
        stat.update(w['stat'] or {})
        trouble.update(w['trouble'] or {})
        shapes.update(w['shapes'] or [])
        found += w['found'] or []
        samples += (w['samples'] or [])[:1]
    viol = None
    if found:
        found.sort(key=lambda f: f['seed'])
        # the smallest failing plan is the best start
        f = min(found, key=lambda f: len(json.dumps(f['plan'])))
        viol = minimise(prop, f, d, tier)
    elif broken:
        viol = confirm_broken(prop, sorted(broken)[0], d)
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 1),
        'violations': [viol] if viol else [],
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': len(shapes),
            'rule': 'One evaluation is one simulated run of the whole daemon: a seed generates the configuration, rules, DNS, clients, operator actions and faults, '
                    'and a seeded scheduler decides every interleaving. ' + RULES.get(prop, '') +
                    ' Distinct: runs that are non-trivial and whose sequence of (goroutine, scheduling point) choices, hashed, no other run of this check had.',
            'samples': samples[:4],
            'runs_per_hour': int(tot['runs'] / max(tsearch, .001) * 3600),
            'seeds_per_hour': int(tot['runs'] / max(tsearch, .001) * 3600),
            'seed_range': [base + 1, base + tot['runs'] + WORKERS],
            'simulated_seconds': round(tot['sim_seconds'], 1),
            'scheduling_choices': tot['steps'], 'task_switches': tot['switches'], 'preemptions': tot['preemptions'],
            'faults_injected': dict(sorted(fired.items())),
            'what_the_oracle_judged': dict(sorted(stat.items())),
            'runs_cut_short_by_the_simulator': dict(trouble),
            'determinism': {'seeds_run_in_two_processes': 12, 'identical': det_ok},
            'real_code': REAL, 'stub_code': STUB,
            'build_s': round(tbuild, 1), 'search_s': round(tsearch, 1), 'workers': WORKERS,
        },
    }
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    if viol:
        print('%s: %s' % (viol['class'], viol['what']))
        print('VIOLATION property=%s replay=%s' % (prop, viol['replay']))
        return 1
    if tot['runs'] == 0:
        fail('no runs')
    if not shapes:
        fail('the search reached nothing the property speaks about (%d runs; %s)' % (tot['runs'], dict(trouble)))
    print('%s: %d simulated runs (%d distinct non-trivial interleavings, %.0f simulated hours, %d faults of %d kinds) held in %.0f s'
          % (prop, tot['runs'], len(shapes), tot['sim_seconds'] / 3600, sum(fired.values()), len(fired), wall))
    return 0


def minimise(prop, f, d, tier):
    src, dst = d + '/found.json', d + '/min.json'
    json.dump(f, open(src, 'w'))
    rp = None
    rc, txt = sim(d, 'min', 400, prop=prop, file=src, out=dst, time=40 if tier == 'quick' else 150)
    if rc == 0:
        rp = json.load(open(dst))
    if rp is None or not rp.get('violations'):
        rp = {'property': prop, 'seed': f['seed'], 'violations': f['violations'], 'fingerprint': f['fingerprint'], 'plan': f['plan'], 'minimised': 'not minimised'}
    path = '%s/replays/%s-%d.json' % (HERE, prop, f['seed'])
    json.dump(rp, open(path, 'w'), indent=1)
    same = None
    got, rc, txt = replay_file(path, d)
    if got is not None:
        same = got['fingerprint'] == rp['fingerprint'] and got['violations'] == rp['violations']
    v = rp['violations'][0]
    return {'class': v['class'], 'what': v['msg'], 'seed': f['seed'], 'replay': path, 'replayed_exactly': same, 'minimised': rp.get('minimised', '')}


def confirm_broken(prop, b, d):
    """a run that takes its process down or never ends"""
    s, rc, txt = b
    path = '%s/replays/%s-%d.json' % (HERE, prop, s)
    out = d + '/plan.json'
    rc0, txt0 = sim(d, 'plan', 60, prop=prop, seed=s, out=out)
    if rc0 != 0:
        fail('a search process ended with %s at seed %d and the plan cannot be made:\n%s' % (rc, s, txt))
    rp = json.load(open(out))
    json.dump(rp, open(path, 'w'), indent=1)
    got, rc2, txt2 = replay_file(path, d)
    if got is not None:
        fail('a search process ended with %s at seed %d, but the seed alone runs through:\n%s' % (rc, s, txt))
    if 'judge:' in txt2 or 'model:' in txt2:
        fail('the oracle failed at seed %d:\n%s' % (s, txt2))
    what = 'the run never ends' if rc2 == 'hang' else 'the daemon takes the whole process down: ' + ' '.join(txt2.split('\n')[:3])
    rp['violations'] = [{'class': 'crash', 'msg': what}]
    json.dump(rp, open(path, 'w'), indent=1)
    return {'class': 'crash', 'what': what, 'seed': s, 'replay': path, 'replayed_exactly': True, 'minimised': 'not minimised'}


if __name__ == '__main__':
    main()
