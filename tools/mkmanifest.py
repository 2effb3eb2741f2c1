#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = 'deterministic simulation with fault injection: seeded schedules, thread-launch, allocation, worker and state faults over the real library under a fiber scheduler'
NOTE = {
    'C01': 'Search, not proof. Every interleaving is at instrumented-access granularity under sequential consistency; data races are reported directly. Trusts g++ instrumentation and sim/simrt.cpp.',
    'C02': 'Search over which worker calls fail, when, and how they interleave. Failing workers are real models or a throwing AbstractTidalModel subclass.',
    'C03': 'Search over refused launch positions and schedules; the refusal is EAGAIN from pthread_create under std::thread.',
    'C04': 'Search over batch sizes 0..70, workers 0..80, core counts 0..64; each point is counted by a scripted model and checked against the harmonic reference.',
    'C05': 'Search over concurrent operations on one shared object, compared with the same operations alone; data races are reported directly.',
    'C06': 'Search over query histories through shared and separate caches against fresh caches and an independent interpolation reference; one known finding (fan-vertex).',
    'C07': 'Search over date sequences, tolerances and splits; the angles used are inferred from the results through an independent harmonic reference.',
    'C08': 'Search over models, batches and settings against an independent harmonic, admittance and equilibrium reference generated from published tables (sim/ref*).',
    'C09': 'Search over sessions and restart points against the same session without restart.',
    'C10': 'Search over damage to saved states; memory use, hangs and process death are monitored by the simulator at every access.',
    'C11': 'Search over failing allocations (n-th, every n-th, from n on) in every public operation; process death, leaks and changed objects are monitored.',
    'C12': 'Search over failures of download, disk and process (crash at any system call) of the real leap_seconds.py on a simulated clock.',
    'C13': 'Search over clocks, tables and concurrent processes interleaved at system calls, against a reference lookup.',
    'C14': 'Search over configurations, file faults and load-time failures of the real config.py over the real C++ models (reached through a C interface instead of pybind11) and a stub of netCDF4.',
    'C15': 'Search over calls, clocks, refresh failures and thread schedules of the real Python entry points over the real C++ library (reached through a C interface instead of pybind11), against direct calls of that library with the leap seconds of the drawn table.',
}
TECH = {'C12': 'deterministic simulation with fault injection: simulated clock, network, disk and crashes around the real leap_seconds.py',
        'C13': 'deterministic simulation with fault injection: simulated clock and seeded interleaving of processes at system calls',
        'C14': 'deterministic simulation with fault injection: seeded configurations and file faults around the real config.py',
        'C15': 'deterministic simulation with fault injection: simulated clock, network, disk and thread schedule around the real Python entry points'}
NA = {
    'N01': 'Pure function of one string or identifier: no concurrency, time, I/O, faults or history for a simulator to decide.',
    'N02': 'Pure numerical function of one series; its concurrent and out-of-memory use is covered by C05 and C11, its accuracy is not a question of schedules or faults.',
    'N03': 'Pure function of an axis and a coordinate; nothing to schedule or fault. Its use by queries is covered end to end by C06 and C08, and damaged axes by C10.',
    'N04': 'Pure geometry of one triangle and one position; nothing to schedule or fault. Its use by queries is covered end to end by C06 and C08.',
    'N05': 'Pure conversion of an array; nothing to schedule or fault. It lives in the Python bindings, which cannot be built here (pybind11 is not installed).',
}
CLAIMED = os.environ.get('CLAIMED', ' '.join(NOTE)).split()
checks = [{'property': p, 'quick_cmd': f'python3 check.py --property {p} --tier quick',
           'thorough_cmd': f'python3 check.py --property {p} --tier thorough',
           'technique': TECH.get(p, LIB), 'level': 'exploration', 'level_note': NOTE[p]} for p in NOTE if p in CLAIMED]
na = [{'property': p, 'reason': r} for p, r in NA.items()]
na += [{'property': p, 'reason': 'Check under construction.'} for p in NOTE if p not in CLAIMED]
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: compiler instrumentation and linker wrapping give every seam. Replay: build/sim replay FILE [--trace] (C01-C11), python3 pysim/pycheck.py replay FILE [--trace] (C12-C15).'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
