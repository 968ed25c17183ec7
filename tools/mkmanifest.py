"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
CLAIMED = {
    'P01': ('proof', 'All obligations discharged for all 2^32 words: the real functions are executed symbolically.'),
    'P02': ('proof', 'All doubles, split by binary exponent; mantissa symbolic.'),
    'P03': ('proof', 'All words; number of words in a packed buffer symbolic.'),
    'P04': ('proof', 'All words (all pairs in comparisons, against integers and reals without bound, with float() and as_integer_ratio() '
                     'represented by contracts which are discharged in the same check). floor/ceil deviate: known finding.'),
}
NOT = {}
TECH = ('contract-based deductive verification: pre/postconditions and loop invariants on the real functions, obligations generated by '
        'symbolic execution of the current source and discharged by z3/cvc5; counterexamples replayed on the real code')
sys.path.insert(0, os.path.join(ROOT, 'tools'))
try:
    from claims import CLAIMED as C2, NOT as N2
    CLAIMED.update(C2)
    NOT.update(N2)
except ImportError:
    pass
checks = []
for p in props:
    i = p['id']
    if i not in CLAIMED:
        continue
    level, note = CLAIMED[i]
    checks.append(dict(property=i, quick_cmd='./check {} --tier quick'.format(i), thorough_cmd='./check {} --tier thorough'.format(i),
                       technique=TECH, level=level,
                       level_note=note + ' Trusted: the models of the Python built-ins in pv/, the SMT solvers, and what evidence/{}.json '
                       'lists under assumptions.'.format(i)))
na = [dict(property=p['id'], reason=NOT.get(p['id'], 'check not built yet')) for p in props if p['id'] not in CLAIMED]
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3" && test -x ./check', checks=checks, not_applicable=na,
               notes='./check PROPERTY [--tier quick|thorough] [--unit RE] [-v]; replay with ./check --replay FILE; see DESIGN.md'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
