#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sa/registry.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa import registry as R

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in R.ALL + R.NOT_APPLICABLE:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': [], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                        'observe_at': p['observe'], 'hook_needed': None},
        }, ensure_ascii=False) + '\n')

checks = []
for p in R.ALL:
    technique = p['technique'] or (R.TECHNIQUE + ('; whole-program rules: ' + ', '.join(p['rules']) if p['rules'] else ''))
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': technique,
        'level': 'other',
        'level_note': p['note'] or ('Decided statically from the current source, never by running it: ' + p['explanation'] +
                                    '. Covers the input space of the scenarios in specs/ (their symbolic parts stand for every value); trusts the model of Python built-ins in sa/ and the reference specifications in specs/.'),
    })
manifest = {
    'version': 1,
    'setup_cmd': 'python3 -c "import ast, json"',
    'hooks': {'guard': 'UTG_VERIF (unused: the source is analysed as it is)', 'enable': 'not needed', 'source_commits': []},
    'checks': checks,
    'not_applicable': [{'property': p['id'], 'reason': R.REASONS[p['id']]} for p in R.NOT_APPLICABLE],
    'notes': 'Static analysis only: check.py parses /repo/utg and interprets its syntax tree over abstract values; nothing of the project is imported or executed. Uses the standard library of /usr/bin/python3 only.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, ensure_ascii=False, indent=1)
    f.write('\n')

# the per-property part of DESIGN.md
import ast


def scenarios(p):
    for setting, group in sorted(p['scenarios'].items()):
        for module, names in group:
            tree = ast.parse(open(os.path.join(HERE, 'specs', module + '.py')).read())
            for node in tree.body:
                if isinstance(node, ast.FunctionDef) and node.name.startswith('scn_') and (names is None or node.name in names):
                    yield module, node.name, setting, ' '.join((ast.get_docstring(node) or '').split())


out = []
for p in R.ALL:
    out.append('### %s — %s\n' % (p['id'], p['title']))
    out.append('- **Decided by**: %s.' % p['explanation'])
    out.append('- **Bounds**: %s.' % R.BOUNDS[p['id']])
    out.append('- **Why tests cannot**: %s.' % p['why'])
    out.append('- **Scenarios** (oracle: the reference specification in the named file):')
    listed = {}
    for module, name, setting, doc in scenarios(p):
        listed.setdefault((module, name, doc), []).append(setting)
    for (module, name, doc), settings in listed.items():
        extra = '' if settings == [R.REF] else ' _(%s)_' % '; '.join(settings)
        out.append('  - `%s.%s`: %s%s' % (module, name, doc, extra))
    if p['rules']:
        out.append('- **Whole-program rules** (`sa/rules.py`): ' + ', '.join('`%s`' % x for x in p['rules']))
    out.append('')
path = os.path.join(HERE, 'DESIGN.md')
begin, end = '<!-- generated: properties -->', '<!-- end generated -->'
if os.path.exists(path):
    text = open(path).read()
    head, rest = text.split(begin)
    with open(path, 'w') as f:
        f.write(head + begin + '\n' + '\n'.join(out) + '\n' + end + rest.split(end)[1])

# the table of planted changes (DESIGN.md only; no check reads /verif/seeded)
import glob
import re
rows = []
for meta in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    planted = json.load(open(meta))
    name = os.path.basename(os.path.dirname(meta))
    verdict = planted.get('caught_by', planted['property'])
    rows.append('| %s | %s | %s | %s |' % (name, planted['property'], planted['what_it_breaks'].replace('|', '\\|').replace('\n', ' '), verdict))
table = ['| change | property | what it breaks | caught by |', '|---|---|---|---|'] + rows
if os.path.exists(path):
    text = open(path).read()
    head, rest = text.split('<!-- generated: planted -->')
    with open(path, 'w') as f:
        f.write(head + '<!-- generated: planted -->\n' + '\n'.join(table) + '\n<!-- end planted -->' + rest.split('<!-- end planted -->')[1])
