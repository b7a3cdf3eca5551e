#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in src/checks."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = 'property-based testing: '
T = {
 'C01': 'generated dependency relations and group trees against an order / count oracle',
 'C02': 'generated attachment graphs against an independent reference of the published transitions and graph edges',
 'C03': 'generated graphs and frame histories executed on a simulated device that tracks the layout of every subresource',
 'C04': 'generated graphs and frame histories executed on a simulated device that tracks layouts and contents of every subresource',
 'C05': 'generated buffer uses against a last-access model over the recorded command stream',
 'C06': 'generated attachment lists against the render pass and framebuffer descriptions they declare',
 'C07': 'stateful model-based testing of the layout bookkeeping against a map from cells to states',
 'C08': 'generated chains of graphs executed on a simulated device; reported final states compared with device layouts',
 'C09': 'stateful generated histories of create/compile/run/reset/destroy with an object-lifetime oracle on a simulated device',
 'C10': 'fault injection at generated device call positions with a leak and exception oracle',
 'C11': 'stateful generated request sequences with pairwise mutations against a structural-equality model',
 'C12': 'generated binding lists; descriptor contents bound at execution compared with the declared attachments',
 'C13': 'generated copy/blit/mip parameters against independently computed regions',
 'C14': 'generated run histories and completion schedules on a simulated queue with fences and semaphores',
 'C15': 'generated frames and clocks against a reference of query slots and elapsed times',
 'C16': 'generated enabled sets and actions against a reference of the expected mark sequence',
 'C17': 'stateful model-based testing of signals, connections and deletion queues',
 'C18': 'generated graphs exported and parsed back by an independent DOT parser',
 'C19': 'generated clearable attachments against an exactly-one-full-clear oracle on the command stream',
 'C20': 'generated draw/dispatch configurations and resets against the recorded commands',
 'C21': 'generated attachment declarations against a table-driven reference',
 'C22': 'metamorphic and differential: two builds of one graph, renamed graphs, repeated frames',
 'C23': 'generated concurrent request sequences and graphs, under the thread sanitizer, against the outcome of one request at a time',
 'C24': 'generated graphs, frames and leaks on a device with debug extensions; names, labels, log and leak reports against the simulated device\'s objects',
 'C25': 'generated graphs and frames; the warnings of each recording against the layouts tracked by the simulated device when the pass starts',
}
LEVEL = {'C10': 'fault_enumeration'}
NOTE = {
 'C10': 'Generated scenarios; in each, one generated device call position (of those counted in a run of the same scenario without faults) fails with a generated error code.',
}
NOTE['C23'] = 'Schedules are those the system gives; the thread sanitizer reports unsynchronised accesses whichever way they interleave. The library is compiled from the working tree with TSan.'
DEFAULT = 'Generated cases only: the library is compiled from the working tree with ASan and UBSan and driven on a simulated device; bounds are listed in DESIGN.md.'
checks = []
for f in sorted(glob.glob(os.path.join(HERE, 'src', 'checks', 'C*.cpp'))):
    p = os.path.basename(f)[:-4]
    checks.append({'property': p, 'quick_cmd': './check quick ' + p, 'thorough_cmd': './check thorough ' + p,
                   'technique': GEN + T[p], 'level': LEVEL.get(p, 'exploration'), 'level_note': NOTE.get(p, DEFAULT)})
have = {c['property'] for c in checks}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = [{'property': p, 'reason': 'Check not built yet; property-based testing applies to it.'} for p in props if p not in have]
m = {'version': 1, 'setup_cmd': './check setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the library is observed through its public API and a simulated Vulkan device.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
