#!/usr/bin/env python3
"""Runs the check of one property: check.py --property C01 [--tier quick|thorough]

Exit 0: the property held on everything explored. Exit 1, with a line
"VIOLATION property=<id> replay=<path>": it is broken. Anything else is an error
of the check itself.
"""
import argparse, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sim'))
sys.path.insert(0, os.path.join(HERE, 'pysim'))

# runs of the quick tier, and seconds after which it stops early
QUICK = {'C01': 16000, 'C02': 6000, 'C03': 9000, 'C04': 15000, 'C05': 50000, 'C06': 60000, 'C07': 18000,
         'C08': 45000, 'C09': 45000, 'C10': 90000, 'C11': 70000}
QUICK_SECS, THOROUGH_SECS = 300, 1200

RULE = {
    'C01': 'One run draws a model (or wave table), a batch, core count, worker counts, memory contents and a schedule. Non-trivial: at least two workers actually ran.',
    'C02': 'One run draws a batch, a worker count, and which accelerator creations or interpolations throw. Non-trivial: at least one worker really threw.',
    'C03': 'One run draws a batch, a worker count and the launch positions at which thread creation is refused. Non-trivial: at least one creation really was refused.',
    'C04': 'One run draws the batch size, worker count, core count and schedule. Every run is non-trivial: each point is counted.',
    'C05': 'One run draws several concurrent callers and their operations on one model or wave table, and a schedule. Every run is non-trivial: at least two callers.',
    'C06': 'One run draws a model and a sequence of queries through one or several caches. Every run is non-trivial: each answer is compared with that of a fresh cache and of the reference.',
    'C07': 'One run draws dates, a tolerance, a split over workers, and checks the date implied by each result. Every run is non-trivial.',
    'C08': 'One run draws a model, batch and settings and compares every point with an independent implementation of the harmonic model. Every run is non-trivial.',
    'C09': 'One run draws a session of additions, clears, predictions and restarts and compares it with the same session without restart. Every run is non-trivial: at least one restart.',
    'C10': 'One run draws a model, mesh or axis, damages its saved state and uses what is restored. Every run is non-trivial: the state was damaged.',
    'C11': 'One run draws an operation and which allocations fail in it. Every run is non-trivial: at least one allocation was asked to fail.',
}
STUBS = {
    'default': {'real': ['src/library/**/*.cpp and include/** of /repo, instrumented but unmodified', 'libstdc++', 'Eigen', 'Boost.Geometry'],
                'simulated': ['threads, mutexes, condition variables, once and atomics (fibers under the seeded scheduler)', 'malloc/new (arena)', 'core count', 'clocks and sleeping'],
                'stub': []},
    'C02': {'stub': ['an AbstractTidalModel subclass of the harness whose calls throw as drawn (part of the runs; others use real models)']},
    'C04': {'stub': ['an AbstractTidalModel subclass of the harness counting the points computed']},
}


def symbolise(exe, pcs):
    pcs = [p for p in pcs if p]
    if not pcs:
        return []
    r = subprocess.run(['addr2line', '-Cfpie', exe] + [hex(p) for p in pcs], capture_output=True, text=True)
    return [l for l in r.stdout.splitlines() if l.strip()]


def known_findings(prop):
    """Lines 'known: property=<id> case=<case> <text>'."""
    out = {}
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) case=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def write_evidence(prop, ev):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{prop}.json.{os.getpid()}')
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    os.replace(tmp, os.path.join(d, f'{prop}.json'))


def run_sim(exe, prop, seed, runs, secs, workers=None):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    replay = os.path.join(HERE, 'replays', f'{prop}-seed{seed}.replay')
    out = os.path.join(HERE, 'build', f'{prop}-{os.getpid()}.json')
    cmd = [exe, 'run', '--prop', prop, '--seed', str(seed), '--runs', str(runs), '--secs', str(secs), '--workers',
           str(workers or os.cpu_count() or 8), '--gate', '16', '--minimise', '30', '--out', out, '--replay', replay]
    r = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
    try:
        with open(out) as fh:
            d = json.load(fh, strict=False)
    except (OSError, ValueError) as e:
        print(f'simulator failed (exit {r.returncode}): {e}\n{r.stdout[-2000:]}\n{r.stderr[-2000:]}')
        return None, replay
    finally:
        if os.path.exists(out):
            os.unlink(out)
    return d, replay


def describe_violation(prop, d, replay, exe, seed):
    v = d['violation']
    print(f"{prop}: {v['signature']} in run {v['index']} of seed {seed}")
    print(f"  workload: {v['note']}")
    for l in v['message'].splitlines():
        print('  ' + l)
    for l in symbolise(exe, v['pcs']):
        print('  at ' + l)
    print(f"  choices (workload, faults, schedule): {v['before']} minimised to {v['after']} of which {v['nonzero']} "
          f"not the simplest, in {v['tries']} tries")
    print(f'  replay: {os.path.relpath(exe, HERE)} replay {replay} [--trace]')


def library_check(prop, tier, seed):
    import build as simbuild
    t0 = time.time()
    exe = simbuild.build()
    if not exe:
        print('build of the simulator failed')
        return 2
    built = time.time() - t0
    runs, secs = (QUICK[prop], QUICK_SECS) if tier == 'quick' else (10 ** 9, THOROUGH_SECS)
    runs = int(os.environ.get('VERIF_RUNS', runs))
    secs = float(os.environ.get('VERIF_SECS', secs))
    d, replay = run_sim(exe, prop, seed, runs, secs)
    if d is None:
        return 2
    v = d['violation']
    rc = 0
    extra = {}
    if prop == 'C06':   # the recorded finding: demonstrated on its own input
        k, kreplay = run_sim(exe, 'C06-fan', seed, 1, 60, 1)
        if k is None:
            return 2
        kv = k['violation']
        extra['known_finding_demonstration'] = kv['message'] if kv else 'does not fail'
        if kv:
            known = known_findings(prop)
            if kv['signature'] in known:
                print(f"KNOWN-FINDING: property={prop} {known[kv['signature']]} ({kv['message']})")
            else:
                describe_violation('C06-fan', k, kreplay, exe, seed)
                print(f'VIOLATION property={prop} replay={kreplay}')
                rc = 1
    stub = {**STUBS['default'], **STUBS.get(prop, {})}
    wall = d['wall']
    cov = {
        'evaluations': d['runs'],
        'distinct_nontrivial': d['distinct_executions'],
        'rule': RULE[prop] + ' Distinct: by the hash of the complete event log of the execution (every choice, scheduling decision, thread event and result).',
        'samples': d['samples'] or ['none'],
        'nontrivial_runs': d['nontrivial'],
        'oracle_checks': d['evals'],
        'distinct_interleavings': d['distinct_interleavings'],
        'distinct_interleavings_measure': 'sequence of (from thread, to thread, code address) over all context switches of the run',
        'distinct_states': d['distinct_states'],
        'distinct_states_measure': 'scenario features: model kind, sizes, worker counts, operation and fault position classes',
        'runs_per_hour': round(d['runs'] * 3600 / max(wall, 1e-3)),
        'seeds_per_hour': round(d['runs'] * 3600 / max(wall, 1e-3)),
        'simulated_seconds': round(d['sim_ns'] / 1e9, 3),
        'simulated_time_measure': 'one nanosecond per instrumented step plus simulated sleeps',
        'instrumented_steps': d['steps'], 'context_switches': d['switches'], 'threads_started': d['threads'],
        'allocations': d['allocations'], 'synchronisation_operations': d['sync_ops'],
        'faults_injected': d['faults'], 'runs_with_faults': d['faulty_runs'], 'runs_without_faults': d['runs'] - d['faulty_runs'],
        'determinism_gate': {'runs_executed_again': d['gate_runs'], 'mismatches': d['gate_bad'],
                             'how': 'every 16th run is executed again from its seed and once more from its recorded choices; event log hash and step count must agree'},
        'components': stub, 'build_s': round(built, 1), **extra,
    }
    if v:
        cov['violation'] = {k: v[k] for k in ('index', 'signature', 'reproduced', 'verified', 'tries', 'before', 'after')}
        describe_violation(prop, d, replay, exe, seed)
        if v['verified'] or v['reproduced']:
            print(f'VIOLATION property={prop} replay={replay}')
            rc = 1
        else:
            print('the violation was not reproduced: error of the check')
            rc = rc or 2
    elif d['internal']:
        print('simulator: ' + d['internal'])
        rc = rc or 2
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if rc == 1 else 0,
          'assumptions': ['sequentially consistent interleavings of instrumented accesses (data races are reported instead of their weak-memory outcomes)',
                          'code compiled at -O1 with -fsanitize=thread instrumentation and -DNDEBUG']}
    write_evidence(prop, ev)
    print(f"{prop} {tier}: {d['runs']} runs ({d['distinct_executions']} distinct non-trivial, {d['distinct_interleavings']} interleavings), "
          f"{d['evals']} checks, gate {d['gate_runs']}/{d['gate_bad']}, {wall:.0f} s, exit {rc}")
    return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = ap.parse_args()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    if a.property in QUICK:
        return library_check(a.property, a.tier, seed)
    import pycheck
    return pycheck.check(a.property, a.tier, seed, write_evidence, known_findings)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
