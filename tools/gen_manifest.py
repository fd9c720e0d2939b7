"""Writes MANIFEST.json from the check modules present in checks/ and the reasons below."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import importlib

NOT_APPLICABLE = {
}
PENDING = 'No check has been built for this property yet.'

props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'), encoding='utf-8')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(VERIF, 'checks', i.lower() + '.py')):
        mod = importlib.import_module('checks.' + i.lower())
        b = mod.BOUNDS['quick']
        checks.append(dict(
            property=i,
            quick_cmd=f'VERIF_TIER=quick ./check {i}',
            thorough_cmd=f'VERIF_TIER=thorough ./check {i}',
            evidence_file=f'evidence/{i}.json',
            technique='bounded symbolic execution of the real functions, z3 deciding every branch and the property on every path',
            level='model_checking',
            level_note=f'Exhaustive within the bounds, nothing claimed outside them. Quick bounds: {b}. Outside: {mod.OUTSIDE}.'))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, PENDING)))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
