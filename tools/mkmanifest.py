#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, subprocess
CLAIMED = open('/verif/tools/claimed.txt').read().split()
T = {
 'C17': 'controlled random schedules of the real code over instrumented locks (deadlock and step monitors), free-running stress under a lock-quiescence monitor, snapshot oracle against a run alone',
 'C19': 'differential runtime monitor: the same generated inputs read by every feature build, digests of everything read compared; order oracle in the ordered builds',
 'C18': 'runtime oracle: generated on-disk layouts resolved by the real code, merged tree compared with the model, listing order varied',
 'C20': 'runtime oracle: nodes of every kind asked every typed question, answers compared with what was put in',
 'C21': 'lifecycle monitor over random histories of keeping, dropping, unparsing, deleting and asking: values, liveness (Weak) and mappings compared with a model',
 'C22': 'runtime oracle: records and headers of opened files compared with what an independent writer stored, over repeated parsing',
 'C23': 'runtime monitor over random histories and (scheduled) interleavings of several files in one process: every file compared with what an independent writer stored, shared keys compared with the reference keystream',
 'C16': 'mutation fuzzing under panic, signal, allocation and CPU-step monitors',
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = []
for p in props:
    if p['id'] not in CLAIMED: continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f"bash run.sh check {p['id']}",
        'thorough_cmd': f"VERIF_TIER=thorough bash run.sh check {p['id']}",
        'technique': T.get(p['id'], 'runtime oracle: generated inputs from an independent encoder, decoded by the real code and compared'),
        'level': 'exploration',
        'level_note': 'Executions of the real library on generated inputs are observed; inputs outside the generated space are not covered.',
    })
m = {'version': 1, 'setup_cmd': 'bash run.sh setup', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in props if p['id'] not in CLAIMED]}
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1); print(len(checks))
