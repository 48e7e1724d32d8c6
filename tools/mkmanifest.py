#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')

TECHNIQUE = {
    'P01': 'property-based testing: differential against an exact rational/independent projection and optimality conditions',
    'P02': 'property-based testing: greedy reference model (validity predicate) and rejection cases',
    'P03': 'property-based testing: invariants over generated shapes and seeds',
    'P04': 'property-based testing: reference formula over generated line-search states',
    'P05': 'property-based testing: feasibility invariant over generated fits and fit/transform histories',
    'P06': 'property-based testing: differential against an independent objective',
    'P07': 'property-based testing: monotonicity relation over iteration budgets',
    'P08': 'property-based testing: independently certified optimality (duality gap)',
    'P09': 'property-based testing: independently certified optimality (least squares / duality gap)',
    'P10': 'property-based testing: first-order optimality certificate',
    'P11': 'property-based testing: metamorphic (kernel, rotation, translation)',
    'P12': 'property-based testing: metamorphic (permutation)',
    'P13': 'property-based testing: reference model of initial guesses',
    'P14': 'property-based testing: prefix-run reference model of the stopping rule',
    'P15': 'property-based testing: repeat-run relation under perturbed global state',
    'P16': 'property-based testing: generated operation sequences with invariants after every step',
    'P17': 'property-based testing: encode/decode round trip',
    'P18': 'property-based testing: generated single-defect mutations of accepted calls',
    'P19': 'property-based testing: naive recursion as reference model',
    'P20': 'property-based testing: counting reference model',
    'P21': 'property-based testing: invariant over generated fits',
    'P22': 'property-based testing: differential against an independent linear programme',
    'P23': 'property-based testing: reference model of one alternation step over iteration prefixes',
    'P24': 'property-based testing: differential against independent least squares',
    'P25': 'property-based testing: reference model of one alternation step over iteration prefixes',
    'P26': 'property-based testing: differential against per-regime least squares',
    'P27': 'property-based testing: invariant and single-scale optimality',
    'P29': 'property-based testing: metamorphic (argument omitted or given)',
    'P30': 'property-based testing: metamorphic (type and layout of the arguments)',
    'P31': 'stateful property-based testing: interleaved histories against never-copied twins',
    'P32': 'stateful property-based testing: reconfigured objects against new ones',
    'P33': 'property-based testing: metamorphic (coordinate changes)',
    'P28': 'property-based testing: independently certified stationarity of converged fits',
}
NOTE = ('Generated-input search over the stated domain against an oracle that '
        'does not share code with the implementation; it never establishes '
        'absence. Trusts numpy/scipy/scikit-learn/cvxpy and the tolerances '
        'stated in DESIGN.md.')
ROOT = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
checks, missing = [], []
for p in ROOT:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 run.py ' + pid,
            'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': TECHNIQUE[pid], 'level': 'exploration',
            'level_note': NOTE})
    else:
        missing.append({'property': pid, 'reason': 'check not built yet'})
manifest = {'version': 1, 'setup_cmd': 'python3 tools/selftest.py',
            'checks': checks, 'not_applicable': missing,
            'notes': 'No hooks in /repo: everything is observed through the '
                     'public interface. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed,', len(missing), 'not')
