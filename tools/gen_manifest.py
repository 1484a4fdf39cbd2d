"""Generates /verif/MANIFEST.json from sim/registry.py and properties.jsonl"""
import json
import pathlib
import sys

root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root))

from sim import registry  # NOQA

props = [json.loads(i) for i in
         (root / 'properties.jsonl').read_text().splitlines()]
checks = []
not_applicable = []
for p in props:
    spec = registry.PROPS.get(p['id'])
    if not spec:
        reason = registry.NOT_APPLICABLE.get(
            p['id'], 'not decided yet: its simulation scenario is not built')
        not_applicable.append({'property': p['id'], 'reason': reason})
        continue
    names = ', '.join(i for i, _ in spec['scenarios'])
    checks.append({
        'property': p['id'],
        'quick_cmd': f'python3 check.py check {p["id"]}',
        'thorough_cmd': f'VERIF_TIER=thorough python3 check.py check '
                        f'{p["id"]}',
        'technique': f'deterministic simulation with seeded schedule and '
                     f'fault search (scenario: {names})',
        'level': 'exploration',
        'level_note': spec.get('note') or (
            'Seeded search over schedules, inputs and faults of the real '
            'code under a simulated world; every executed run is judged '
            'against a reference model. Nothing is claimed for schedules '
            'which were not executed. Trusted: the simulator (sim/), LMDB '
            'commit atomicity, CPython asyncio semantics.')})
(root / 'MANIFEST.json').write_text(json.dumps({
    'version': 1,
    'setup_cmd': 'python3 check.py setup',
    'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the simulator '
              'replaces the event loop, clock, network, thread pool and lmdb '
              'module from outside', 'source_commits': []},
    'checks': checks,
    'not_applicable': not_applicable,
    'notes': 'See DESIGN.md. Known and fixed defects: known_findings.json.'},
    indent=1) + '\n')
