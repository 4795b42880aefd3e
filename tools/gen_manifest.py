#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist. Every property without a check is listed as not applicable (yet)."""
import importlib.util
import json
import pathlib
import sys

verif = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(verif))
checks, missing = [], []
for line in (verif / 'properties.jsonl').read_text().splitlines():
    prop = json.loads(line)
    path = verif / 'checks' / f"{prop['id'].lower()}.py"
    if not path.exists():
        missing.append({'property': prop['id'], 'reason': 'No check has been built for this property yet.'})
        continue
    spec = importlib.util.spec_from_file_location('m', path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    checks.append({
        'property': prop['id'],
        'quick_cmd': f"./run.py {prop['id']} --tier quick",
        'thorough_cmd': f"./run.py {prop['id']} --tier thorough",
        'technique': getattr(module, 'TECHNIQUE', 'runtime monitoring: reference-model oracle over executions of the real code'),
        'level': module.LEVEL,
        'level_note': getattr(module, 'LEVEL_NOTE', module.RULE),
    })
manifest = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'Technique family: runtime monitoring and sanitizers. See DESIGN.md. No hooks are needed in /repo.',
}
(verif / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
print(len(checks), 'checks', len(missing), 'missing')
