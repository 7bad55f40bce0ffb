"""Writes /verif/MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: seeded search over "
N = {
 "C01": (T + "thread interleavings and call histories, results compared with the same call alone in a fresh process",
         "No counterexample in the explored schedules and histories. Preemption at every statement and expression of package code; switches inside numpy's C code are not simulated. Oracle: the same code called alone in a forked, freshly imported process."),
 "C02": (T + "calls, layouts and interleavings, input buffers compared at every yield point, aliasing of results checked",
         "Inputs are compared bytewise at every yield point inside package code and after the call; results are tested for shared memory."),
 "C03": (T + "interrupt and allocation-failure points inside package code, alone and with concurrent callers",
         "Faults strike at statements and expressions of package code (not inside numpy's C code). After each: exception at the caller, inputs, settings, other callers, retried call."),
 "C04": (T + "interleavings with a seeded noise generation, generator state and process settings compared at yield points",
         "numpy's and Python's global generators and a list of process-wide settings are observed at yield points; a setting not on the list is not."),
 "C05": (T + "adversarial and seeded states of the random generator behind numpy's global generator",
         "Exact checks per run (count, untouched samples, alternation, sizes) plus a position-uniformity test over many seeds with a false-alarm probability below 1e-9."),
 "C06": (T + "answer sequences of the user's function: NaN, infinities, exceptions, discontinuities, re-entrance, interleaved callers",
         "The simulated function keeps its own log; claims are checked against that log, not against another solver."),
 "C07": (T + "sensor-fault schedules, faulty and fault-free records smoothed and compared",
         "Reference model: mean of the window computed from scratch; influence factors for the recursive smoothers."),
 "C08": (T + "crash instants of a streaming processor that restarts from durable state in a fresh process",
         "Outputs of prefixes and resumed segments compared with the uninterrupted run."),
 "C09": (T + "schedules of flagged samples, contents, interrupts and interleavings, compared with a small reference model per method",
         "Reference models are independent implementations; for the polynomial methods only soundness conditions and a model of the fit are compared. Two known findings (weighted moving average) are reported as such."),
 "C10": (T + "probe-fault schedules, compared with an independent model of each detector's criterion",
         "Samples whose distance from the threshold is within rounding are undecided. Kernel methods only on records that vary."),
 "C11": (T + "placements of gross spikes, detection/replacement loops run to quiescence (bounded progress)",
         "Bounds (ten rounds, six standard deviations) demanded of the stated class of records only."),
 "C12": (T + "delivery, duplication, reordering, stall, interrupt and crash schedules of a processing station built on the library",
         "Queue, workers and archive are simulated; all processing is real package code. Final archive compared with a sequential fault-free reference."),
 "C13": (T + "delivery histories of a lossy, duplicating, reordering telemetry link, statistics compared with their definitions on the received set",
         "Definitions evaluated in extended precision; degenerate sample sets (no spread) are left open for the standardised moments."),
 "C14": (T + "divisions of work into shards, assignments, deaths and repetitions of workers, compared with one call and with the definition",
         "Far tails of the logarithms (probability below 1e-9) are compared between workers only."),
 "C15": (T + "crash points, block divisions and representations of streaming filter nodes, compared with each other and with the Butterworth law",
         "The package designs filters and does not run them: the recursion is part of the simulated node. Well-conditioned designs only (orders up to 5, bands at least 0.1 of Nyquist wide)."),
}
why = "A pure function of its arguments: no concurrency, time, I/O, randomness or fault that could decide it. Whether the numbers are right is a matter of input sampling or proof, not of simulated schedules; C01-C04 and C12 still run this code under simulation."
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -m advsim selftest --runs 2",
     "checks": [{"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough", "evidence_file": f"evidence/{p}.json",
                 "technique": t, "level": "exploration", "level_note": n} for p, (t, n) in N.items()],
     "not_applicable": [{"property": p, "reason": r + why} for p, r in
        (("C23", "Numerical accuracy of density estimates and SSA. "),)],
     "notes": "No hooks in /repo: yield points and fault points are woven into the package's syntax trees when the simulator imports it from /repo's working tree (advsim/weave.py, advsim/lib.py), so the shipped code has no guard to switch. All commits in /repo are 'fix:' commits, listed in known_findings.txt. Replay: /opt/venv/bin/python -m advsim replay <file>."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
