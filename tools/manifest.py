"""Writes MANIFEST.json from properties.jsonl and the harness modules present in props/."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'N01': 'an approximation-error bound between a discrete transform and an improper integral over Bessel functions: there is no encoding of that integral within reach of an SMT solver (what the code itself promises, the exact discrete transform and its inverse, is C25)',
 'N02': 'numerical accuracy of third-party code (hmf, halomod, CAMB, astropy, Dark Emulator) against physical models: no specification to encode and the code lies outside the repository',
}
PY = '. /opt/vp/env.sh >/dev/null 2>&1; /opt/venv/bin/python check.py'
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'{PY} {i} --tier quick', thorough_cmd=f'{PY} {i} --tier thorough',
                           technique='symbolic execution of the real Python code, z3 decides every obligation, counterexamples replayed',
                           level='other', level_note='bounded symbolic execution + SMT: all real-valued inputs within stated array sizes/option sets; environment (hmf/halomod/CAMB/emulator/CosmoSIS) stubbed; floats treated as reals'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='See DESIGN.md. No hooks: the checks load /repo sources directly.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
