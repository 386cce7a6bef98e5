"""Writes MANIFEST.json from the rules that exist."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/sa')
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import check
rules = {}
for m in check.RULEMODS:
    if os.path.exists(H + '/sa/%s.py' % m):
        rules.update(importlib.import_module(m).RULES)
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
AI = 'path-partitioned abstract interpretation of type-checked MIR (value numbering, fixpoint at loops), opaque callees as events'
TECH = {
    'S': AI, 'C': AI, 'A': AI + '; constant output interpreted as an SGR terminal automaton', 'H': AI + '; constant output interpreted by a markup automaton',
    'P': AI, 'M': 'translation validation of macro expansions: the type-checked MIR of every expansion of a systematically enumerated specimen crate is interpreted abstractly and compared with a reference reading of the documented grammar; compile-fail witnesses for what must be rejected',
}
SPEC = {
    'M06': 'resolution audit of emitted token streams in MIR plus compile witnesses (hostile-scope crates that must type-check)',
    'E01': 'visibility/effect audit of the type-checked public surface plus compile-fail witnesses with compiling twins',
    'E02': 'effect audit of the type-checked MIR of every function (statics, thread locals, environment, foreign calls, address casts)',
    'C10': 'call-graph effect analysis over the type-checked MIR (allocation as the effect)',
    'M07': 'effect audit of the macro crate plus intraprocedural dataflow of hash-ordered iteration',
    'E03': 'type-level witnesses: generic functions that type-check only if the trait implementations exist',
    'W01': 'type-checking of every feature combination, dependency and no_std attribute audit of the compiled crates',
}
NOTE = {}
LEVEL = {**{'M0%d' % i: 'translation_validation' for i in range(1, 6)}, 'E01': 'other', 'W01': 'other', 'M06': 'other', 'M07': 'other', 'E02': 'other', 'E03': 'other', 'C10': 'other'}
checks, na = [], []
for i in ids:
    if i in rules:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': SPEC.get(i) or TECH[i[0]], 'level': LEVEL.get(i, 'proof'),
                       'level_note': (rules[i].__doc__ or 'every path of the analysed entries for all inputs and all behaviours of the wrapped stream; standard-library operations as modelled').strip().replace('\n', ' ')})
    else:
        na.append({'property': i, 'reason': 'no check built for this property yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na}, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
