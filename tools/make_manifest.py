"""Writes /verif/MANIFEST.json from the property list and the check modules present."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PY = '/opt/venv/bin/python'

NA = {
    'P01': 'Pure function of its arguments: no schedule, clock, fault or history takes part, so a simulated run would be '
           'input generation under another name.',
    'P02': 'Algebraic identity between pure conversions of one truth table; nothing to schedule and no fault to inject.',
    'P03': 'Minimum over an enumerated class, a pure function of the truth table; deciding it is enumeration, not simulation.',
    'P04': 'Geometry of one truth table, a pure function of the input; only its independence of history is decided (C06).',
    'P05': 'Linear algebra over the two-element field, a pure function of the matrix; histories of products are under C17.',
    'P06': 'Exactness of number helpers is a property of single calls with large inputs; no schedule or fault reaches it.',
    'P07': 'Argument checking of single calls is a pure function of the arguments; what a refused change does to an '
           'object that lives on is decided under C03.',
}

TECH = 'deterministic simulation with fault injection: '
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl')) as f:
    props = [json.loads(line) for line in f]
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'sim', 'props', i.lower() + '.py')):
        m = importlib.import_module('sim.props.' + i.lower())
        checks.append({'property': i, 'quick_cmd': '%s -m sim.run %s' % (PY, i), 'thorough_cmd': '%s -m sim.run %s' % (PY, i),
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH + m.TECHNIQUE, 'level': m.LEVEL,
                       'level_note': m.NOTE})
    elif i in NA:
        na.append({'property': i, 'reason': NA[i]})
    else:
        na.append({'property': i, 'reason': 'The check for this property is not built yet.'})
man = {'version': 1,
       'setup_cmd': PY + ' -m sim.setup',
       'checks': checks, 'not_applicable': na,
       'notes': 'Pure Python; nothing is compiled. Every check imports /repo/discretehelpers as it stands in the working '
                'tree, without bytecode files. No hooks in /repo. VERIF_SEED seeds everything; a reported replay file is run '
                'again with: %s -m sim.run --replay FILE (in /verif).' % PY}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
