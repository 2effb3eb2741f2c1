"""Checks of the Python parts: builds the shim (and the library the Python models
stand on), runs the simulator and writes the evidence."""
import json, os, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
PY = '/opt/veriftools/pyvenv/bin/python'

QUICK = {'C12': 4000, 'C13': 3000, 'C14': 8000, 'C15': 4000, 'C16': 6000}
QUICK_SECS, THOROUGH_SECS = 300, 1200

RULE = {
    'C12': 'One run draws a history of up to five refreshes, each with a network outcome, a fault plan of the disk or a kill '
           'position for one or two processes at a time, and a probing process after each. Non-trivial: a process really found the table out of date.',
    'C13': 'One run draws tables, clocks and lookups for up to four processes sharing the installation, over up to three rounds, and a schedule. '
           'Every run is non-trivial: every answer is compared with the tables.',
    'C14': 'One run draws configurations, their files, the environment, what is wrong with them and what happens to the files during '
           'the load. Non-trivial: at least one load was decided (model compared with the files, or an error required).',
    'C15': 'One run draws the clock, the leap-second table and its refresh (network, disk, kill), up to three threads of one process and '
           'their calls of the entry points, with failing allocations. Every run is non-trivial: every answer is compared with the library.',
    'C16': 'One run draws a mesh, the files of its constituents and what is wrong with them, and up to three rounds of one or two conversions to the same '
           'output, each with a fault plan of the disk or a kill position. Non-trivial: a conversion succeeded, or a fault really struck it.',
}
COMMON = ['the file system calls of the process (open, read, write, rename, unlink, ...) are real calls on scratch files, '
          'each one a scheduling point that may be failed, shortened, torn or be the last of the process']
COMP = {
    'C12': {'real': ['src/python/pyfes/leap_seconds.py of /repo, unmodified', 'http.client and urllib.request', 'numpy', 'CPython'],
            'simulated': COMMON + ['clock, sleep, process identifiers and random bytes', 'process death'],
            'stub': ['the socket under http.client (scripted server)', 'pyfes/__init__.py (needs the extension module)']},
}
COMP['C13'] = COMP['C12']
COMP['C14'] = {'real': ['src/python/pyfes/config.py of /repo, unmodified', 'src/library/**/*.cpp of /repo (models, axes, mesh index, constituents)', 'PyYAML', 'numpy', 'CPython'],
               'simulated': COMMON + ['environment variables', 'another process replacing, truncating or removing files meanwhile'],
               'stub': ['netCDF4 (not installed): reader of a simple container with the same interface',
                        'pyfes.core (pybind11 is not available): ctypes binding of the same C++ classes']}
COMP['C15'] = {'real': ['src/python/pyfes/__init__.py, astronomic_angle.py, wave_table.py, leap_seconds.py of /repo, unmodified',
                        'src/library/**/*.cpp of /repo (tide, angles, wave table)', 'http.client and urllib.request', 'numpy', 'CPython'],
               'simulated': COMMON + ['clock (including datetime and time modules), sleep', 'choice of the Python thread that runs, at line granularity',
                                      'failing allocations of the library'],
               'stub': ['the socket under http.client (scripted server)',
                        'pyfes.core (pybind11 is not available): ctypes binding of the same C++ classes']}
COMP['C16'] = {'real': ['src/python/pyfes/console_script/fes_convert_mesh.py and config.py of /repo, unmodified', 'numpy', 'argparse', 'CPython',
                        'src/library/**/*.cpp of /repo (the model loaded from the converted file)'],
               'simulated': COMMON + ['process death'],
               'stub': ['netCDF4 (not installed): reader and writer of a simple container with the same interface; what is not written yet when the '
                        'process dies is missing from the file',
                        'pyfes.core (pybind11 is not available): ctypes binding of the same C++ classes']}
ASSUME = ['a process is interrupted and interleaved at system calls on the shared files and the network, not between them',
          'a rename is atomic and durable once it returned (POSIX on a local file system); power loss is not simulated']
ASSUMPTIONS = {'C15': ASSUME + ['threads of one process switch between lines of the files of pyfes and at network events, not within a line']}


def compiled():
    """Path of the shim, or None."""
    import hashlib
    d = os.path.join(BUILD, 'py')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(HERE, 'shim.c')
    with open(src, 'rb') as fh:
        key = hashlib.sha256(fh.read()).hexdigest()[:16]
    so = os.path.join(d, f'shim-{key}.so')
    if not os.path.exists(so):
        tmp = f'{so}.{os.getpid()}'
        r = subprocess.run(['gcc', '-O2', '-U_FORTIFY_SOURCE', '-fPIC', '-shared', '-w', src, '-o', tmp, '-ldl'],
                           capture_output=True, text=True)
        if r.returncode:
            print(r.stderr[-4000:])
            return None
        os.replace(tmp, so)
    return so


def environment(shim, scratch, core=None):
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'VERIF_REPO')}
    env.update(PSIM_SHIM=shim, PSIM_SCRATCH=scratch, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC',
               LC_ALL='C.UTF-8', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LD_PRELOAD=shim)
    if core:
        env['PSIM_CORE'] = core
    return env


def prepare(prop):
    shim = compiled()
    if not shim:
        return None
    core = None
    if prop in ('C14', 'C15', 'C16'):
        import build
        core = build.build_core()
        if not core:
            return None
    return shim, core


def check(prop, tier, seed, write_evidence, known_findings):
    t0 = time.time()
    ready = prepare(prop)
    if not ready:
        print('build failed')
        return 2
    built = time.time() - t0
    runs, secs = (QUICK[prop], QUICK_SECS) if tier == 'quick' else (10 ** 9, THOROUGH_SECS)
    runs = int(os.environ.get('VERIF_RUNS', runs))
    secs = float(os.environ.get('VERIF_SECS', secs))
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    replay = os.path.join(VERIF, 'replays', f'{prop}-seed{seed}.replay')
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix='psim-', dir=base)
    out = os.path.join(scratch, 'out.json')
    try:
        r = subprocess.run([PY, os.path.join(HERE, 'psim.py'), 'run', '--prop', prop, '--seed', str(seed), '--runs', str(runs), '--secs',
                            str(secs), '--workers', str(os.cpu_count() or 8), '--gate', '16', '--minimise', '30', '--out', out, '--replay', replay],
                           capture_output=True, text=True, errors='replace', env=environment(ready[0], scratch, ready[1]), cwd=VERIF)
        try:
            with open(out) as fh:
                d = json.load(fh)
        except (OSError, ValueError) as e:
            print(f'simulator failed (exit {r.returncode}): {e}\n{r.stdout[-3000:]}\n{r.stderr[-3000:]}')
            return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    v, rc, wall = d['violation'], 0, max(d['wall'], 1e-3)
    cov = {
        'evaluations': d['runs'],
        'distinct_nontrivial': d['distinct_executions'],
        'rule': RULE[prop] + ' Distinct: by the hash of the complete event log of the execution (every system call, decision and result).',
        'samples': d['samples'] or ['none'],
        'nontrivial_runs': d['nontrivial'],
        'oracle_checks': d['checks'],
        'distinct_interleavings': d['distinct_interleavings'],
        'distinct_interleavings_measure': 'sequence of (from process, to process, pending system calls) over all switches of the run',
        'distinct_states': d['distinct_states'],
        'distinct_states_measure': 'scenario features: outcome kinds, fault kinds and positions, group sizes',
        'runs_per_hour': round(d['runs'] * 3600 / wall), 'seeds_per_hour': round(d['runs'] * 3600 / wall),
        'simulated_seconds': round(d['sim_ns'] / 1e9, 3),
        'simulated_time_measure': 'advance of the simulated clocks of the processes, jumps included',
        'system_calls': d['events'], 'process_switches': d['switches'], 'processes': d['procs'],
        'faults_injected': d['faults'], 'runs_with_faults': d['faulty'], 'runs_without_faults': d['runs'] - d['faulty'],
        'determinism_gate': {'runs_executed_again': d['gate_runs'], 'mismatches': d['gate_bad'],
                             'how': 'every 16th run is executed again from its seed and once more from its recorded choices; the event log hashes must agree'},
        'components': COMP[prop], 'build_s': round(built, 1),
    }
    if v:
        cov['violation'] = {k: v[k] for k in ('index', 'signature', 'reproduced', 'verified', 'tries', 'before', 'after')}
        print(f"{prop}: {v['signature']} in run {v['index']} of seed {seed}")
        print(f"  workload: {v['note']}")
        print('  ' + v['message'].replace('\n', '\n  '))
        for l in v['trace'][-25:]:
            print('  | ' + l[:300])
        print(f"  choices (workload, faults, schedule): {v['before']} minimised to {v['after']} of which {v['nonzero']} "
              f"not the simplest, in {v['tries']} tries")
        print(f'  replay: python3 pysim/pycheck.py replay {replay} [--trace]')
        if v['verified'] or v['reproduced']:
            print(f'VIOLATION property={prop} replay={replay}')
            rc = 1
        else:
            print('the violation was not reproduced: error of the check')
            rc = 2
    elif d['internal'] or d['gate_bad']:
        print('simulator: ' + d['internal'])
        rc = 2
    write_evidence(prop, {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
                          'wall_s': round(time.time() - t0, 2), 'violations': 1 if rc == 1 else 0,
                          'assumptions': ASSUMPTIONS.get(prop, ASSUME)})
    print(f"{prop} {tier}: {d['runs']} runs ({d['distinct_executions']} distinct non-trivial, {d['distinct_interleavings']} interleavings), "
          f"{d['checks']} checks, gate {d['gate_runs']}/{d['gate_bad']}, {wall:.0f} s, exit {rc}")
    return rc


def main():
    """pycheck.py one --prop C12 --index 3 [--trace] | replay FILE [--trace]"""
    import sys
    sys.path.insert(0, os.path.join(VERIF, 'sim'))
    args = sys.argv[1:]
    if args and args[0] == 'replay':
        with open(args[1]) as fh:
            prop = json.load(fh)['property']
    else:
        prop = args[args.index('--prop') + 1]
    ready = prepare(prop)
    if not ready:
        return 2
    scratch = tempfile.mkdtemp(prefix='psim-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    try:
        return subprocess.run([PY, os.path.join(HERE, 'psim.py'), *args], env=environment(ready[0], scratch, ready[1])).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    raise SystemExit(main())
