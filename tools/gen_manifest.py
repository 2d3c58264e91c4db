import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
sys.dont_write_bytecode = True
import meta
TECH = {
 'C07': 'seeded deterministic simulation with fault injection: two covariance forms in lockstep',
 'C13': 'seeded deterministic simulation with disk and schedule faults: log history against a reference model',
 'C14': 'seeded deterministic simulation: twin runs under disk, clock and terminal faults',
 'C15': 'seeded deterministic simulation: crash at a chosen point or inside a write, durable state compared',
 'C16': 'seeded deterministic simulation: twin runs under different clocks, memory and builds',
 'C17': 'seeded deterministic simulation: generated sensor histories with injected errors, judged against independent formulas and statistics',
 'C18': 'seeded deterministic simulation: a run with a bounded fault phase against its fault-free twin and the truth, progress within a bounded time once faults stop',
 'C21': 'seeded deterministic simulation: rendered scenes with damaged, late, repeated and lost images through the real trackers, one-step refinement against a reference model',
 'C22': 'seeded deterministic simulation of the whole application: message history, files and a second filter built from the same configuration',
 'C25': 'seeded deterministic simulation of the whole node over a simulated middleware: deliveries and publications, and a twin assembled without the node',
 'C26': 'seeded deterministic simulation of the Monte Carlo runner: emulated processes under a seeded scheduler with process, file and crash faults, whole history judged',
 'C27': 'seeded deterministic simulation of batches whose runs fail, die while writing or lose files, evaluated by the real scripts and compared with a reference',
 'C28': 'seeded deterministic simulation of batches whose runs fail, die while writing or lose files, reported by the real scripts; everything drawn is compared with a reference',
 'C19': 'seeded deterministic simulation: twin runs with shifted epochs',
}
NOTE = {
 'C07': 'Samples histories; equality up to the measured effect of rounding on the standard form; a run ends at decisions within rounding of a threshold.',
 'C17': 'Samples scenarios; every message of each is judged. Statistical clauses only see errors well above sampling noise.',
 'C18': 'Samples scenarios; one IMU and one GPS receiver at the body reference point.',
 'C21': 'Samples scenes and image sequences; every image of each is judged. Updates whose triangulation is ill-conditioned are checked for validity only.',
 'C22': 'Samples configurations; every message, row and file of each run is judged. Runs are short (at most a few simulated seconds).',
 'C25': 'Samples parameters, traffic and schedules; every delivery and publication is judged. The middleware is a stand-in with a single-threaded executor.',
 'C26': 'Samples inputs, options, schedules, faults and crash points; every process start, file and list of each history is judged. Processes are emulated inside one.',
 'C27': 'Samples batches and damage; every statistic of each is judged except those of attitudes. The simulated runs are stand-ins; pandas is one, too.',
 'C28': 'Samples batches and damage; every line, band and histogram of each report is judged. The simulated runs, pandas and bokeh are stand-ins; the page itself is not rendered.',
 'C15': 'Process crashes only; crash points are sampled, between operations and within writes.',
}
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p not in meta.META:
        continue
    checks.append({
        'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
        'technique': TECH.get(p, 'seeded deterministic simulation with fault injection, one-step refinement against an executable reference model'),
        'level': 'exploration',
        'level_note': NOTE.get(p, 'Samples histories and fault sequences; every step of each is judged. Not exhaustive; numeric comparisons are up to scaled rounding tolerances.')})
na = [n for n in NA if n['property'] not in meta.META]
missing = [p for p in props if p not in meta.META and p not in [n['property'] for n in na]]
na += [{'property': p, 'reason': 'not claimed yet: the check is under construction'} for p in missing]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), [n['property'] for n in na])
