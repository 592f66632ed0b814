#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (single source for titles, statements and claims)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, technique=None, level=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'state': state, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None},
                  _t=technique, _l=level, _n=note, _na=na))
exec(open(os.path.join(V, 'meta_props.py')).read())
if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
    fixes = []
    m = {'version': 1, 'setup_cmd': 'python3-vt check.py --selftest',
         'checks': [dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                         technique=p['_t'], level=p['_l'], level_note=p['_n']) for p in P if not p['_na']],
         'not_applicable': [{'property': p['id'], 'reason': p['_na']} for p in P if p['_na']]}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for l in open(os.path.join(V, 'properties.jsonl')): jsonschema.validate(json.loads(l), s)
    except ImportError: pass
