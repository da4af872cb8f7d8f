'''Writes MANIFEST.json and the per-property part of DESIGN.md from properties.jsonl, the check modules and
mon/design/.  Run after changing any of them: /opt/venv/bin/python mon/mkdocs.py'''
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo')


def read(*parts):
    path = os.path.join(VERIF, *parts)
    if not os.path.exists(path):
        return ''
    with open(path) as f:
        return f.read()


def main():
    props = [json.loads(line) for line in read('properties.jsonl').splitlines()]
    costs = json.loads(read('mon', 'design', 'costs.json') or '{}')
    notes = json.loads(read('mon', 'design', 'notes.json') or '{}')
    known = [line for line in read('known_findings.txt').splitlines() if line.startswith('known:')]
    checks, sections = [], []
    for p in props:
        pid = p['id']
        module = importlib.import_module(f'props.{pid.lower()}')
        note = notes.get(pid, {})
        technique = note.get('technique', 'runtime monitoring: the real code under generated workloads, each '
                             'result judged by an independent reference model')
        level_note = ('Held on the executions the check made (counted in the evidence file), not proved. '
                      'Trusts the reference model in mon/ref or in the check, written from the standards, and '
                      'CPython.')
        assumptions = list(getattr(module, 'ASSUMPTIONS', []))
        if assumptions:
            level_note += ' Assumes: ' + '; '.join(assumptions) + '.'
        if any(f'property={pid} ' in line for line in known):
            level_note += ' One recorded finding (known_findings.txt).'
        checks.append({
            'property': pid, 'quick_cmd': f'./check {pid}', 'thorough_cmd': f'./check {pid} --tier thorough',
            'evidence_file': f'evidence/{pid}.json', 'technique': technique, 'level': module.LEVEL,
            'level_note': level_note,
        })
        work = ', '.join(f'`{w.name}` {w.quick:,}/{w.thorough:,}' for w in module.WORKLOADS)
        require = '; '.join(f'{k} ≥ {v:,}' for k, v in module.REQUIRE.items())
        quick, thorough = costs.get(pid, ['?', '?'])
        lines = [
            f'### {pid} — {p["title"]}', '',
            f'- **Specified.** {p["statement"]}',
            f'- **Monitored and generated.** {module.RULE}',
        ]
        if note.get('oracle'):
            lines.append(f'- **Oracle.** {note["oracle"]}')
        lines += [
            f'- **Bounds and reach.** Cases quick/thorough: {work}. The verdict is inconclusive (exit 2) unless '
            f'the monitors saw: {require}.',
            f'- **Cost.** {quick} s quick, {thorough} s thorough on 8 cores.',
            f'- **Beyond the tests.** {p["why_tests_cant"]}' + (f' {note["beyond"]}' if note.get('beyond') else ''),
        ]
        for a in assumptions:
            lines.append(f'- **Assumes** {a}.')
        sections.append('\n'.join(lines))
    manifest = {
        'version': 1,
        'setup_cmd': 'chmod +x check && /opt/venv/bin/python -c "import sys; sys.path.insert(0, \'/repo\'); '
                     'import bitcoinx"',
        'checks': checks,
        'not_applicable': [],
        'notes': 'Pure-Python repository: the checks import bitcoinx from /repo\'s working tree, so there is '
                 'nothing to build and there are no hooks in /repo. VERIF_SEED and VERIF_TIER are honoured. '
                 'Replay a violation with: ./check Cnn --replay evidence/replay/FILE.json',
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    seeded = []
    for name in sorted(os.listdir(os.path.join(VERIF, 'seeded'))) if os.path.isdir(os.path.join(VERIF, 'seeded')) \
            else []:
        meta = json.loads(read('seeded', name, 'meta.json'))
        caught = notes.get('caught', {}).get(name, '?')
        seeded.append(f'| {name} | {meta["property"]} | {meta["what_it_breaks"]} | {meta["needs"]} | {caught} |')
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
        f.write(read('mon', 'design', 'head.md'))
        f.write('\n## Properties\n\n' + '\n\n'.join(sections) + '\n\n')
        f.write(read('mon', 'design', 'tail.md'))
        if seeded:
            f.write('\n## Planted changes\n\nOf `seeded/`; the last column is the checks that report a violation '
                    'with the change applied (quick tier, seed 1).\n\n| id | property | breaks | needs | caught by |\n'
                    '|---|---|---|---|---|\n' + '\n'.join(seeded) + '\n')


main()
