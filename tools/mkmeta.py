"""Writes properties.jsonl and MANIFEST.json from tools/meta/*.py (one PROP dict per property)."""
import os, json, glob, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
props, checks = [], []
for f in sorted(glob.glob(os.path.join(HERE, 'meta', 'p*.py'))):
    d = runpy.run_path(f)
    p, c = d['PROP'], d['CHECK']
    assert p['id'].lower() == os.path.basename(f)[:-3]
    assert len(p['title']) <= 80, p['title']
    clean = lambda s: ' '.join(s.split())
    for k in ('statement', 'why_tests_cant'):
        p[k] = clean(p[k])
    p['quantifier']['text'] = clean(p['quantifier']['text'])
    a = p['anchors']
    if isinstance(a.get('observe_at'), str):
        a['observe_at'] = [a['observe_at']]
    props.append(p)
    if os.path.exists(os.path.join(VERIF, 'pbt', 'props', p['id'].lower() + '.py')):
        checks.append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
                       'thorough_cmd': './check %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': clean(c['technique']), 'level': 'exploration', 'level_note': clean(c['note'])})
    else:
        raise SystemExit('no check for ' + p['id'])
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
       'notes': 'Every check imports pdfmajor from /repo directly (pure Python, nothing is built or cached) and runs '
                'property-based tests in worker processes; see DESIGN.md.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(props), 'properties')
