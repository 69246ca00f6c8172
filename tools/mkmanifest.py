"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation: '
CHECKS = {
 'C01': ('seeded search over chunkings, worker assignments, orders and preemptions of the parallel loops, under a simulated numba threading layer (compiled kernels) and a baton scheduler (interpreted loop bodies); oracle: recursive logit definition and bit-equality with the plain schedule',
         'Every explored schedule, tree and table; not exhaustive over schedules. Floating-point agreement with the definition is within rounding, agreement between schedules is exact.'),
 'C02': ('same simulated threading layer with dirtied per-worker and process random states, simulated entropy and prior activity; oracle: bit-equality across schedules and histories, inverse CDF over the reference stream for single draws',
         'Every explored schedule and prior history; the uniform stream is taken to be the seeded generator of the kernels library.'),
 'C03': ('same simulated world with the random source replaced by extreme and adversarial draws (fault injection at the random source); oracle: support membership, exact inverse CDF bounds and multi-seed frequency tests with fixed seeds',
         'Extreme draws are injected where the random source is interpreted; distribution tests use fixed seeds and wide limits, so they cannot raise random alarms.'),
 'C04': ('bad rows placed in pieces run by chosen virtual workers under drawn schedules, where an exception raised on a worker is dropped as the real threading layer drops it; oracle: error iff a bad row exists',
         'Every explored placement and schedule.'),
 'C09': ('histories of partial-utility tables added under drawn schedules of the four parallel kernels; oracle: exact sums, refusal without change',
         'Every explored history; amounts are multiples of 1/8, so that sums are exact.'),
}
NA = {
 'C21': 'acceptance of one expression text is a pure function of that text: no schedule, clock, I/O, fault or history for a simulator to control',
 'C22': 'the default fill for a data type is a pure function of the type: nothing for a simulator to control (what lookups do with fills over histories and failures is C16)',
}
pids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
try:
    sys.path.insert(0, os.path.join(HERE, 'tools'))
    from manifest_more import MORE
    CHECKS.update(MORE)
except ImportError:
    pass
checks = []
for p in pids:
    if p in CHECKS:
        t, n = CHECKS[p]
        checks.append({'property': p, 'quick_cmd': f'python3 check.py {p}', 'thorough_cmd': f'python3 check.py {p} --tier thorough',
                       'technique': TECH + t, 'level': 'exploration', 'level_note': n})
na = [{'property': p, 'reason': NA.get(p, 'the check is not built yet')} for p in pids if p not in CHECKS]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
