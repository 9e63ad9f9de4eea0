#!/usr/bin/env python3
"""Development aid: write MANIFEST.json from properties.jsonl and the registered checks."""
import json, sys
sys.path.insert(0, '/verif/sa'); sys.dont_write_bytecode = True
import main as M
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
TECH = M.AI
T = {}
NOTE = ('Every path of the analysed functions is covered through fixpoints over loops and summaries of recursive calls; nothing is executed. '
        'Three-way verdict: an obligation is discharged, refuted with the construct, or undecided (listed in the evidence, not an alarm). '
        'Trusted: the models of the std functions in sa/models.py, rustc\'s MIR, and that lengths and positions do not overflow 64 bits.')
NA = {
 'N02': 'running time depends on runtime content (shared prefixes, retries after failed branches); no static bound in reach',
 'N03': 'stack use depends on the number of tokens in runtime data and on the thread\'s stack size; recursion over the tree is by design',
 'N04': 'a Python 2 script outside the Rust crate working on XML; equivalence of two pattern languages is not decidable by the dataflow rules used here',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in M.CHECKS:
        checks.append({'property': i, 'quick_cmd': './check.sh %s' % i, 'thorough_cmd': './check.sh %s' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': M.TECH.get(i, TECH), 'level': 'other', 'level_note': M.NOTES.get(i, '') + NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -B sa/main.py --setup', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'not applicable')
