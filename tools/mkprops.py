#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the file stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Predictions do not depend on worker count or thread scheduling",
 "A batch tide prediction, over a tidal model or from a map of constituents, returns for every point the same tide, long-period part and quality whatever number of workers computes it and however those workers are interleaved, when no time tolerance is requested. No two workers of one call ever access the same memory without ordering when one of them writes.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of the workers at memory-access granularity, every worker count, every model kind (regular grid, linear and quadratic finite elements) and batch",
 "Unit tests call the prediction with one or two worker counts under whichever schedule the machine happens to produce; the guarantee is over all schedules, and a race that needs one preemption between two accesses never shows in them.",
 ["include/fes/detail/thread.hpp", "include/fes/tide.hpp", "src/library/wave/table.cpp", "include/fes/wave/table.hpp"],
 [("work splitting and joining", "include/fes/detail/thread.hpp"),
  ("private accelerator, wave table and long-period handler per worker", "include/fes/tide.hpp evaluate_tide"),
  ("private copy of the wave table per worker", "src/library/wave/table.cpp tide_from_mapping")],
 [("wave table of a worker", "nodal corrections and interpolated values of the current point", "include/fes/wave/table.hpp")],
 ["values returned by the batch prediction calls", "memory accesses of the workers"])

prop("C02", "A failing worker surfaces as one exception after all workers have ended",
 "When any subset of the workers of a batch call fails at any point of their work, the call ends by raising one of the exceptions those workers raised, never by returning values, crashing or hanging. By the time the exception reaches the caller every worker has ended and released what it held, and the same call succeeds with correct values as soon as the cause of the failure is gone.",
 ["schedules", "fault_sequences"],
 "every choice of failing points and failing workers (several at once included), every schedule of the failures relative to each other and to the joins",
 "No unit test makes a worker fail, let alone two at once; whether the report of the failure is itself safe depends on the interleaving of the failing workers.",
 ["include/fes/detail/thread.hpp", "include/fes/tide.hpp"],
 [("exception capture in workers and rethrow after the joins", "include/fes/detail/thread.hpp"),
  ("per-worker ownership of the accelerator", "include/fes/tide.hpp evaluate_tide")],
 [("captured exception", "failure to be reported to the caller", "include/fes/detail/thread.hpp")],
 ["exception seen by the caller", "set of live threads when the call returns"])

prop("C03", "Failing to start a worker never kills the process or loses points",
 "When the system refuses to start one or more worker threads of a batch call, at any position of the launch sequence, the call either still returns the complete correct result or raises an exception. It never terminates the process, never returns a partially computed result, never leaves a worker running behind, and a later call works normally.",
 ["fault_sequences", "schedules"],
 "every position and number of thread-creation failures in a call, every worker count and schedule of the workers already started",
 "Thread creation never fails in the unit tests, and the outcome depends on which workers are already running when it does.",
 ["include/fes/detail/thread.hpp"],
 [("launch loop of the workers", "include/fes/detail/thread.hpp")],
 None, ["return value or exception of the call", "process survival"])

prop("C04", "Every point is computed exactly once for any size, worker and core count",
 "For every batch size, including empty, every requested worker count, including zero (automatic) and more workers than points, and every number of cores the system reports, including unknown, a batch call computes each point exactly once, writes each result in the position of its input, touches nothing outside the batch and returns.",
 ["configurations", "inputs", "schedules", "fault_sequences"],
 "every combination of batch size, worker count and reported core count, under every schedule",
 "Unit tests use a handful of sizes on the build machine's core count; empty batches, unknown core counts and non-divisible splits are not reached.",
 ["include/fes/detail/thread.hpp", "include/fes/tide.hpp", "src/library/wave/table.cpp"],
 [("partition of the index range over the workers", "include/fes/detail/thread.hpp"),
  ("allocation of the result vectors", "include/fes/tide.hpp evaluate_tide")],
 None, ["log of the points the model is asked for", "result vectors", "memory outside the batch"])

prop("C05", "Concurrent callers sharing a model or wave table do not interfere",
 "Any number of threads may at the same time predict, interpolate, save or read through the same model, and synthesise series, maps or nodal modulations through the same wave table, and each call returns exactly what it would have returned alone. None of these calls changes the shared object: its constituents, values and wave properties are the same before and after.",
 ["schedules", "histories", "programs"],
 "every set of concurrent read-only calls on shared objects, every interleaving of them at memory-access granularity",
 "Unit tests are single caller; the Python bindings release the interpreter lock around these calls, so concurrent callers are real, and interference depends on the interleaving.",
 ["include/fes/tide.hpp", "include/fes/abstract_tidal_model.hpp", "include/fes/wave/table.hpp", "src/library/wave/table.cpp", "src/library/mesh/index.cpp", "include/fes/tidal_model/cartesian.hpp", "include/fes/tidal_model/lgp.hpp"],
 [("const operations work on private copies", "src/library/wave/table.cpp tide_from_tide_series, tide_from_mapping, compute_nodal_modulations"),
  ("per-caller accelerator", "include/fes/abstract_tidal_model.hpp")],
 [("shared wave table", "wave properties, nodal corrections and tide values", "include/fes/wave/table.hpp"),
  ("shared model", "grids, codes, mesh index, dynamic list", "include/fes/abstract_tidal_model.hpp")],
 ["values returned to each caller", "state of the shared objects afterwards", "memory accesses of the callers"])

prop("C06", "Interpolation at a point does not depend on the queries made before it",
 "The constituents and the quality obtained at a position from a model are a function of the model and that position only: whatever positions were queried before through the same acceleration cache, and whatever other callers do with caches of their own, the answer is the one a first query would give. Positions outside the model or on undefined nodes do not contaminate later ones.",
 ["histories", "schedules", "inputs"],
 "every sequence of queries through one cache (moving in and out of cells, triangles, gaps, the date line), every number of caches used concurrently on one model, every grid or mesh convention",
 "Unit tests replay one or two short tracks; the triangle cache can only go wrong for particular successions of positions.",
 ["include/fes/tidal_model/lgp.hpp", "include/fes/tidal_model/cartesian.hpp", "include/fes/abstract_tidal_model.hpp", "src/library/mesh/index.cpp", "src/library/axis.cpp", "include/fes/detail/math.hpp"],
 [("triangle cache", "include/fes/tidal_model/lgp.hpp LGPAccelerator"),
  ("cleared value buffer", "include/fes/abstract_tidal_model.hpp Accelerator"),
  ("nearest triangle search", "src/library/mesh/index.cpp")],
 [("acceleration cache", "last selected triangle and last interpolated values", "include/fes/tidal_model/lgp.hpp, include/fes/abstract_tidal_model.hpp")],
 ["values and quality returned by the interpolation"])

prop("C07", "Astronomical angles are never older than the requested time tolerance",
 "With a time tolerance, each prediction uses astronomical angles computed for a date of the same batch no further than the tolerance from its own date, whatever the order, repetition or jumps of the dates (backwards, far, undefined) and however the batch is split; staleness never accumulates. With a zero tolerance the angles are those of the date itself.",
 ["histories", "schedules", "configurations"],
 "every succession of dates (monotonic drift below the tolerance, reversals, jumps, repeated, undefined dates), every tolerance, every split of the batch over workers",
 "The unit tests use increasing dates; drift, reversals and undefined dates only show over particular successions.",
 ["include/fes/abstract_tidal_model.hpp", "include/fes/settings.hpp", "include/fes/tide.hpp", "include/fes/angle/astronomic.hpp"],
 [("cached astronomical angles and the date they were computed for", "include/fes/abstract_tidal_model.hpp Accelerator::calculate_angle")],
 [("cached angles", "angles of the last evaluated date", "include/fes/abstract_tidal_model.hpp")],
 ["angles returned for a date", "values returned by the batch prediction"])

prop("C08", "Every prediction in a batch follows the harmonic model, whatever precedes it",
 "For every point of every batch the short-period tide is the sum, over the constituents the model provides or lists as dynamic plus those inferred by admittance, of nodal-corrected harmonic terms interpolated at that position, and the long-period part is the model's long-period terms plus the equilibrium of the long-period waves the model does not provide. Excluded constituents are removed from the model part and returned to inference, an undefined position gives an undefined tide with its equilibrium part, and no point's result is influenced by another point of the batch or by an earlier batch.",
 ["histories", "inputs", "configurations"],
 "every batch and succession of batches mixing defined, undefined and repeated positions and dates, every set of provided, dynamic and excluded constituents, every angle formulae, both tide types",
 "Unit tests compare a few hundred predictions of one atlas with fixed settings; leakage of one point or batch into the next and unusual constituent sets are not sampled.",
 ["include/fes/tide.hpp", "include/fes/wave.hpp", "src/library/wave/table.cpp", "src/library/wave/long_period_equilibrium.cpp", "include/fes/angle/astronomic.hpp", "src/library/constituent.cpp", "include/fes/tidal_model/cartesian.hpp", "include/fes/tidal_model/lgp.hpp"],
 [("construction of the wave table from the model and settings", "include/fes/tide.hpp build_wave_table"),
  ("harmonic sum", "include/fes/tide.hpp evaluate_tide"),
  ("admittance", "src/library/wave/table.cpp"),
  ("long-period equilibrium", "src/library/wave/long_period_equilibrium.cpp")],
 [("wave table of a worker", "values left by the previous point", "include/fes/wave/table.hpp")],
 ["values returned by the batch prediction"])

prop("C09", "A model restored from its saved state behaves like the original",
 "At any point of a session of additions and predictions a model may be saved, dropped and restored, any number of times, and every later observable behaviour is the same as if it had not been: predictions and qualities, extrapolation, constituents, dynamic list, tide type, and which further constituents it accepts or rejects.",
 ["crash_points", "histories"],
 "every session of operations and every position in it of one or several save/drop/restore cycles, for every model kind and configuration",
 "Unit tests restore once and compare a few fields; a field that only matters for a later operation is not noticed.",
 ["include/fes/tidal_model/cartesian.hpp", "include/fes/tidal_model/lgp.hpp", "include/fes/detail/serialize.hpp", "include/fes/detail/isviewstream.hpp", "src/library/axis.cpp", "src/library/mesh/index.cpp"],
 [("state writer and reader of each model", "include/fes/tidal_model/cartesian.hpp, include/fes/tidal_model/lgp.hpp"),
  ("serialisation of axes and mesh", "src/library/axis.cpp, src/library/mesh/index.cpp")],
 [("saved state", "byte string holding the model", "include/fes/detail/serialize.hpp")],
 ["results of every later operation on the restored model"])

prop("C10", "A truncated or damaged saved state is rejected or harmless, never unsafe",
 "Restoring a model, mesh or axis from a saved state that lost any part of its end raises an error. Restoring one whose bytes were altered or partly lost in any way either raises an error or gives an object that can be queried, predicted with and saved again without touching memory it does not own, hanging or killing the process.",
 ["fault_sequences", "crash_points", "inputs"],
 "every truncation point, and sampled bit flips, zeroed or repeated blocks and swapped blocks of the states of every model kind",
 "A unit test feeds one short invalid string per class; the failure depends on which byte is lost or altered.",
 ["include/fes/detail/serialize.hpp", "include/fes/detail/isviewstream.hpp", "include/fes/tidal_model/cartesian.hpp", "include/fes/tidal_model/lgp.hpp", "src/library/axis.cpp", "src/library/mesh/index.cpp"],
 [("checked reads from the state stream", "include/fes/detail/serialize.hpp, include/fes/detail/isviewstream.hpp"),
  ("conversion of any failure into an invalid-state error", "include/fes/tidal_model/cartesian.hpp, include/fes/tidal_model/lgp.hpp, src/library/axis.cpp, src/library/mesh/index.cpp")],
 [("saved state", "byte string holding the model", "include/fes/detail/serialize.hpp")],
 ["exception or object obtained", "memory accesses while using it"])

prop("C11", "Running out of memory raises an error and leaves everything usable",
 "If any single or repeated memory allocation fails during a call (building, saving, restoring, interpolating, predicting, synthesising or analysing, in the calling thread or in a worker), the call raises an error or still returns the correct complete result. The process survives, nothing is leaked, the objects involved are unchanged, and repeating the call with memory available gives the correct result.",
 ["fault_sequences", "schedules"],
 "every allocation of every operation as the failing one (and every run of consecutive failures), every worker count and schedule",
 "Allocation never fails in unit tests.",
 ["include/fes/tide.hpp", "include/fes/detail/thread.hpp", "include/fes/tidal_model/cartesian.hpp", "include/fes/tidal_model/lgp.hpp", "include/fes/detail/serialize.hpp", "src/library/wave/table.cpp", "src/library/mesh/index.cpp"],
 [("resource ownership through values and smart pointers", "whole library"),
  ("exception propagation out of workers", "include/fes/detail/thread.hpp"),
  ("stream error reporting while saving", "include/fes/tidal_model/cartesian.hpp, include/fes/tidal_model/lgp.hpp")],
 None, ["exception or result of the call", "set of live allocations", "result of the repeated call"])

prop("C12", "A failed leap-second refresh never loses the last good table",
 "When the leap-second table is out of date and refreshing it fails in any way and at any moment (no network, refused or broken transfer, unusable content, full or failing disk, the process killed), every lookup, in that process or in a later one, still answers from the last good table; an unavailable refresh is at most a warning. Once a refresh succeeds, later processes use the new table.",
 ["fault_sequences", "crash_points", "histories"],
 "every kind and position of network and disk failure and every kill point during the refresh, followed by restarts with further faults",
 "The unit test runs once with whatever network is there; losing the table needs a fault between opening, reading and writing.",
 ["src/python/pyfes/leap_seconds.py"],
 [("download and replacement of the table file", "src/python/pyfes/leap_seconds.py _download_leap_second_file"),
  ("fallback to the expired table", "src/python/pyfes/leap_seconds.py _load_leap_second_file")],
 [("table file", "leap-second table stored with the package", "src/python/pyfes/data/leap-seconds.txt")],
 ["values or error returned by a lookup", "content of the table file"])

prop("C13", "Leap-second lookups are right at any clock, with concurrent refreshes",
 "For every date from 1972 on, in any shape, order or time unit, the lookup returns for each element the TAI-UTC difference in force at that date according to the table in use, and it rejects earlier dates; this holds whatever the system clock says and while other processes sharing the installation refresh the table at the same time, each lookup seeing either the old or the new table as a whole. A table that has not expired is never downloaded again, and one process loads it once.",
 ["schedules", "histories", "inputs", "configurations"],
 "every interleaving at system-call granularity of processes sharing the table file, every clock value before and after expiry, every array of dates",
 "The unit test looks up a fixed list of dates with the shipped table, alone.",
 ["src/python/pyfes/leap_seconds.py"],
 [("table lookup", "src/python/pyfes/leap_seconds.py get_leap_seconds"),
  ("per-process cache of the table", "src/python/pyfes/leap_seconds.py _load_leap_second_file"),
  ("expiry test against the clock", "src/python/pyfes/leap_seconds.py _load_leap_second_file")],
 [("table file", "leap-second table stored with the package", "src/python/pyfes/data/leap-seconds.txt")],
 ["values returned by the lookups", "downloads attempted"])

prop("C14", "A configured model is loaded whole and as described, or refused",
 "Loading a configuration either returns, for each section, the model of the declared kind holding exactly the declared constituents, dynamic list, tide type and extrapolation distance with the amplitudes and phases of the files (missing cells undefined), or raises an error. A missing or unreadable file, a missing variable, files whose grids do not agree, an unknown name or an undefined variable in the configuration is always an error, whenever during the load it happens.",
 ["fault_sequences", "configurations", "histories"],
 "every configuration of both grid families, every position of a file fault during the load (missing, read error, replaced by another grid), every environment",
 "Unit tests load one or two valid configurations and a few malformed ones from intact files.",
 ["src/python/pyfes/config.py"],
 [("per-file loading and consistency test of the grids", "src/python/pyfes/config.py"),
  ("choice of the model class", "src/python/pyfes/config.py"),
  ("environment interpolation", "src/python/pyfes/config.py")],
 None, ["models returned or error raised"])

prop("C15", "The Python entry points give what the library gives for these dates",
 "Evaluating tides, building settings, computing astronomic angles and using wave tables or wave dictionaries from Python gives, for each element, what the library gives for that date with the leap seconds in force at that date, the requested formulae, excluded constituents and tolerance, in the order of the input; an angle computed without a date is that of the current time. This holds whatever the clock says, whatever happens to the refresh of the leap-second table meanwhile and whichever threads of the process do the same; a call that cannot be answered raises an error and changes nothing.",
 ["schedules", "fault_sequences", "histories", "inputs"],
 "every sequence of calls, date arrays, clocks, refresh failures, allocation failures and interleavings of Python threads",
 "The unit tests call each entry point once or twice with a fixed date list, one thread and whatever network is there.",
 ["src/python/pyfes/__init__.py", "src/python/pyfes/astronomic_angle.py", "src/python/pyfes/wave_table.py", "src/python/pyfes/leap_seconds.py"],
 [("leap seconds of the dates of an evaluation", "src/python/pyfes/__init__.py evaluate_tide"),
  ("angles of a date or of now", "src/python/pyfes/astronomic_angle.py AstronomicAngle.update"),
  ("modulations, synthesis and analysis of wave tables", "src/python/pyfes/wave_table.py")],
 [("table file", "leap-second table stored with the package", "src/python/pyfes/data/leap-seconds.txt")],
 ["values returned by the entry points", "error raised by a call"])

# ---- not decided by this family of technique --------------------------------
prop("N01", "Constituent names and identifiers map one to one",
 "Every known constituent name, in any letter case, designates one identifier and that identifier's name is the known spelling; unknown names are rejected.",
 ["inputs"], "all strings", "Tests sample the known names; the statement is over all strings.",
 ["src/library/constituent.cpp", "include/fes/constituent.hpp"],
 [("name table", "src/library/constituent.cpp")])
prop("N02", "Harmonic analysis recovers the constants of a synthetic series",
 "Analysing a series synthesised from constituents separable over its duration returns those constituents' amplitudes and phases.",
 ["inputs"], "all well-conditioned series", "Tests analyse one recorded series.",
 ["src/library/wave/table.cpp"], [("least squares", "src/library/wave/table.cpp harmonic_analysis")])
prop("N03", "Axis search brackets every coordinate of its domain",
 "For any regular axis, ascending or descending, circular or not, the two indices returned for a coordinate bracket it, and coordinates outside the axis are reported as such.",
 ["inputs"], "all axes and coordinates", "Tests cover a few axes and coordinates.",
 ["src/library/axis.cpp", "include/fes/axis.hpp"], [("index search", "src/library/axis.cpp")])
prop("N04", "Triangle containment and reference coordinates agree",
 "A position reported inside a triangle has reference coordinates inside the unit right triangle, also across the date line.",
 ["inputs"], "all triangles and positions", "Tests use a few triangles.",
 ["include/fes/geometry/triangle.hpp", "src/library/geometry/triangle.cpp"], [("reference coordinates", "src/library/geometry/triangle.cpp")])
prop("N05", "Dates are converted to epochs exactly",
 "Any array of dates in any supported time unit is converted to seconds since 1970 with exact integer arithmetic and undefined dates are preserved.",
 ["inputs"], "all arrays and units", "Tests convert a few dates.",
 ["include/fes/python/datetime64.hpp", "include/fes/python/datemanip.hpp", "src/python/core/datemanip.cpp"], [("conversion", "include/fes/python/datetime64.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
