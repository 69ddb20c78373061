#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
AI = 'abstract interpretation of the type-checked MIR'
TECH = {}
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07'):
    TECH[p] = AI + ' with a linear-form domain for samples; coefficients compared with the cas matrix'
TECH.update({
    'C08': AI + ': bounds obligations at every unchecked access and raw-slice construction',
    'C09': AI + ': every path to a normal return implies the documented argument conditions',
    'C10': AI + ': every panic edge (assert, bounds, overflow, unwrap) unreachable for valid arguments',
    'C11': AI + ': reachability of old scratch/output contents in the output terms (definite assignment included)',
    'C12': AI + ': per-chunk dependence of the linear forms',
    'C13': AI + ': returned length as a function of the constructor parameters, acceptance set',
    'C14': 'effect analysis over types and call graph of the type-checked MIR (interior mutability, statics, impure calls)',
    'C15': AI + ': loop progress and trip counts at length zero',
    'C16': AI + ': precision taint and rounding-error bounds of the constants',
    'C17': AI + ': argument obligations at every inner-transform call site',
    'C18': AI + ': non-interference of sample values with branches, indices and products',
})
NOTE = 'Decides from the source only (no execution of the code). See DESIGN.md for what is parametric in the length and what is decided per constant length; trusted: rustc MIR, the transfer functions of the std/num/strength_reduce/transpose calls, exact real arithmetic instead of rounding.'
json.dump({'version': 1, 'setup_cmd': 'python3-vt engine/dump.py',
           'checks': [{'property': p, 'quick_cmd': 'python3-vt check.py --property %s --tier quick' % p,
                       'thorough_cmd': 'python3-vt check.py --property %s --tier thorough' % p,
                       'technique': TECH[p], 'level': 'other', 'level_note': NOTE} for p in props],
           'not_applicable': []}, open(V + '/MANIFEST.json', 'w'), indent=1)
