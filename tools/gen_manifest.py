"""Writes MANIFEST.json from the property modules and the properties list."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
import gen_properties as gp  # noqa: E402

TECH = {
 'C01': 'histories of calls on signal objects, refinement against the stand-alone functions',
 'C02': 'failures injected inside calls on signal objects, refinement against the stand-alone functions afterwards',
 'C03': 'invariant over the stored fields of signal objects after every call of a history with failures injected',
 'C04': 'input-preservation invariant around every call, with failures injected inside it',
 'C05': 'seeded source-line interleavings of concurrent analyses, compared with solo runs',
 'C06': 'process-state image around every simulated call, with failures and interleavings',
 'C07': 'generator-stream oracle over synthesis histories with failures and competing draws',
 'C08': 'controlled random source: response of the synthesis to chosen streams',
 'C09': 'dropout fault sequences against an executable reference model',
 'C10': 'recorder crash and late-start points against the full recording',
 'C11': 'acquisition fault sequences against an executable reference model',
 'C12': 'simulated cluster of workers with crash, retry, redelivery and interleaving',
 'C13': 'process crash and restart at stage boundaries with only serialised state surviving',
 'C14': 'histories of plots with storage faults at every write',
 'C15': 'histories of degraded requests under seeded warning policies and sinks',
 'C16': 'seeded synthesis streams analysed end to end against sampling-error bounds',
 'C17': 'simulated process environments, clocks and histories, compared with a baseline process',
 'C18': 'simulated operating system around start_xvfb with faults in every command',
}
NOTE = ('Seeded search over many simulated runs, not a proof: assurance is '
        'for the explored runs listed in the evidence file. Trusts numpy, '
        'scipy, pywt and the oracle named in DESIGN.md.')
checks = []
for p in gp.P:
    i = p['id']
    if os.path.exists(os.path.join(here, 'dst', 'props', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': f'./check check {i}',
            'thorough_cmd': f'./check check {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'deterministic simulation with fault injection: '
                         + TECH[i],
            'level': 'exploration', 'level_note': NOTE})
claimed = {c['property'] for c in checks}
na = [{'property': k, 'reason': v} for k, v in gp.NA.items()]
na += [{'property': p['id'], 'reason': 'check not built yet'} for p in gp.P
       if p['id'] not in claimed and p['id'] not in gp.NA]
m = {'version': 1, 'setup_cmd': './check setup',
     'hooks': {'guard': 'PYMULTIFRACS_DST',
               'enable': 'No hook was needed in /repo: failure and switch '
                         'points come from sys.monitoring events on the '
                         'unmodified package, so the variable is unused.',
               'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. ./check replay FILE replays a violation; '
              './check digests CNN prints event-log digests of runs.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
