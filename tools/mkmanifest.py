#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'P25': 'Round-trip equality quantifies over all values and histories of two programs communicating through the file system; no static argument in reach bounds it as a whole. Its necessary parts are decided separately: grammar (P08, P17), places (P11), encodings (P14), filling (P13).',
 'P26': 'Running time and memory are quantities of executions; the source does not show them. The only part whose truth is in the shape of the code (no allocation from an unchecked count) is in P18.',
}
TODO = 'The machinery for this property is not finished.'
GVN = 'value-graph summaries (global value numbering of the MIR) compared with an independent specification by normal form and by random interpretation'
TECH = {'P24': 'compile-fail witnesses with compiling twins (type checker), fields enumerated from the type-checked program',
        'P23': 'constants and discriminants read from the type-checked program; conversion tables evaluated over their value graphs'}
NOTE = {'default': 'Each obligation is discharged when the normal form settles it; otherwise value graph and specification agree under all the valuations tried, which is not a proof. Obligations that could not be evaluated are listed as residual in the evidence.',
        'P24': 'The type checker decides each witness program; the set of witness programs is finite, private fields are all enumerated.',
        'P23': 'Complete over the constants and over all codes of one byte; 32-bit codes are covered by the normal form plus samples.'}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists('%s/rules/%s.py' % (V, i.lower())):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'env VERIF_TIER=thorough python3 check.py ' + i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': TECH.get(i, GVN), 'level': 'other', 'level_note': NOTE.get(i, NOTE['default'])})
    else:
        na.append({'property': i, 'reason': TODO})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/build.py', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
