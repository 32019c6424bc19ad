"""Authoring aid: write properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import props

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props.P + props.NA:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
             'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 9)"', 'checks': [], 'not_applicable': [], 'notes': ''}
for p in props.P:
    t = []
    if p['contracts']:
        t.append('value-graph congruence of each anchored function with its reference definition (gated SSA, global value numbering by random interpretation)')
    if p['alias']:
        t.append('storage-sharing (escape and in-place modification) dataflow')
    if p['globals']:
        t.append('constant folding of module tables')
    if p['rules']:
        t.append('whole-program rules: ' + ', '.join(r.split(':')[0] for r in p['rules']))
    man['checks'].append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'static analysis: ' + '; '.join(t),
        'level': 'translation_validation' if p['contracts'] else 'other',
        'level_note': 'Decides, from the source alone, that each anchored function computes the same observable values, stores, calls, outputs and refusals as its reviewed reference definition in specs/. '
                      'Trusts the reference, the meaning given to library calls (uninterpreted, same name same meaning), and that random algebras separate different terms; a function whose new form leaves the analysed subset is reported as undecided in the evidence and not alarmed.'
                      if p['contracts'] else 'Whole-program syntactic and scope analysis; assumes no monkey-patching and no names injected at run time.',
    })
man['not_applicable'] = [{'property': p['id'], 'reason': p['reason']} for p in props.NA]
man['notes'] = 'Checks need only the system python3 and the standard library; they parse /repo and never import it. See DESIGN.md.'
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
