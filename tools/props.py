#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, tests, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests,
                  files=files, mech=mech, technique=technique, note=note))

exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P + [n['p'] for n in NA]:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            for x in p['files']:
                assert os.path.exists('/repo/' + x), x
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['tests'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]),
            )) + '\n')
    m = dict(
        version=1,
        setup_cmd='./setup.sh',
        hooks=dict(guard='none', enable='No hooks: the monitors observe the public API of the crate as built from /repo.', source_commits=[]),
        checks=[dict(
            property=p['id'],
            quick_cmd=f"./check.sh {p['id']} --tier quick",
            thorough_cmd=f"./check.sh {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=p['technique'], level='exploration', level_note=p['note'],
        ) for p in P],
        not_applicable=[dict(property=n['p']['id'], reason=n['reason']) for n in NA],
        notes='All checks are one binary (harness/) that runs the real crate in a supervised child process under generated workloads, with monitors as oracle. See DESIGN.md.',
    )
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')

main()
