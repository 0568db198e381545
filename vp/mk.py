#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from vp/props_src.py and vp/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props_src, registry
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props_src.P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
have = {h.prop for h in registry.ALL}
m = dict(version=1, setup_cmd='python3 vp/setup.py', checks=[], not_applicable=[])
for p in props_src.P:
    i = p['id']
    if i in have:
        meta = registry.PROPS.get(i, {})
        m['checks'].append(dict(property=i, quick_cmd='python3 vp/run.py %s --tier quick' % i,
                                thorough_cmd='python3 vp/run.py %s --tier thorough' % i,
                                evidence_file='evidence/%s.json' % i,
                                technique='bounded model checking of the real C functions (goto-cc/CBMC encoding, Z3 or SAT verdict), counterexamples replayed natively',
                                level='model_checking',
                                level_note=meta.get('note', '') or '; '.join(sorted({h.bounds for h in registry.ALL if h.prop == i and h.bounds}))))
    else:
        m['not_applicable'].append(dict(property=i, reason=registry.NA.get(i, 'no check has been built for it yet')))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
