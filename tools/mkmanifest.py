"""Writes MANIFEST.json from the list of claimed properties."""
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{R}/properties.jsonl')]
claimed = sorted(f[:-3].upper() for f in os.listdir(f'{R}/props') if f.startswith('c') and f[1:3].isdigit())
NOTE = ('Every value of the symbolic inputs inside the bounds listed in the evidence file (tensor shapes, value grids, layer configurations, call counts) is covered by '
        'solver verdicts over the TensorFlow graphs and NumPy code of /repo, re-traced on every run. Trusted: the operator semantics in hgqsym/ (cross-checked on every run by '
        'replaying solver models of explored paths on the unmodified code), z3, and TensorFlow tracing. Outside the bounds nothing is claimed. ')
EXTRA = json.load(open(f'{R}/tools/level_notes.json')) if os.path.exists(f'{R}/tools/level_notes.json') else {}
NA = json.load(open(f'{R}/tools/not_applicable.json')) if os.path.exists(f'{R}/tools/not_applicable.json') else {}
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B tools/setup_check.py',
         checks=[dict(property=p['id'], quick_cmd=f'PYTHONPATH=/verif /opt/venv/bin/python -B -m hgqsym.run {p["id"]} quick',
                      thorough_cmd=f'PYTHONPATH=/verif /opt/venv/bin/python -B -m hgqsym.run {p["id"]} thorough',
                      technique='bounded symbolic execution of the real code (TensorFlow graph and NumPy interpreter over z3 terms), SMT verdict per path, counterexamples replayed',
                      level='model_checking', level_note=NOTE + EXTRA.get(p['id'], '')) for p in props if p['id'] in claimed],
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')) for p in props if p['id'] not in claimed],
         notes='Genuine defects found and repaired are listed in known_findings.json under "fixed". The checks need no hooks in /repo.')
json.dump(m, open(f'{R}/MANIFEST.json', 'w'), indent=1)
print('claimed', claimed)
