"""Write properties.jsonl and MANIFEST.json from one table."""
import json
import os

from props_table import PROPS, NA

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = 'deterministic simulation with fault injection'


def main():
    with open(f'{V}/properties.jsonl', 'w') as f:
        for p in PROPS + NA:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'],
                anchors=dict(
                    files=p['files'],
                    mechanism=[dict(name=n, where=w)
                               for n, w in p['mechanism']],
                    observe_at=p.get('observe', []),
                    hook_needed=None))) + '\n')
    checks = list()
    for p in PROPS:
        i = p['id']
        checks.append(dict(
            property=i,
            quick_cmd=f'{PY} -m vsim.run {i} --tier quick',
            thorough_cmd=f'{PY} -m vsim.run {i} --tier thorough',
            evidence_file=f'evidence/{i}.json',
            technique=f'{TECH}: {p["technique"]}',
            level='exploration',
            level_note=p['note']))
    doc = dict(
        version=1,
        setup_cmd=f'{PY} -c "import vsim.run"',
        checks=checks,
        not_applicable=[
            dict(property=p['id'], reason=p['reason']) for p in NA],
        notes='No hooks in /repo: every seam is an argument, a stream, a '
        'module attribute or a process the code already reaches. '
        'known_findings.json lists findings and repaired defects.')
    with open(f'{V}/MANIFEST.json', 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
