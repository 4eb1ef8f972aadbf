"""Writes properties.jsonl and MANIFEST.json from harness/catalog.py"""
import json
import os
import sys
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from harness.catalog import PROPS  # noqa: E402
from harness.how import HOW  # noqa: E402
try:
    from harness.catalog import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}


def line(p, d):
    return {'id': p, 'title': d['title'], 'statement': d['statement'],
            'quantifier': {'over': d['over'], 'text': d['quantifier']},
            'why_tests_cant': d['why'],
            'anchors': {'files': d['files'], 'mechanism': d['mechanism'], 'observe_at': d['observe_at'],
                        'hook_needed': None}}


def design():
    """Replaces the section on the properties in DESIGN.md"""
    path = os.path.join(ROOT, 'DESIGN.md')
    with open(path, encoding='utf-8') as fh:
        head, rest = fh.read().split('<!-- properties -->')[0], None
    with open(path, encoding='utf-8') as fh:
        rest = fh.read().split('<!-- end of properties -->')[1]
    out = ['<!-- properties -->']
    before = None
    for p, d in PROPS.items():
        out.append(f'### {p} {d["title"]}')
        out.append('How: ' + ('as for ' + before if before and HOW[p] == HOW[before] else HOW[p]))
        if not (before and HOW[p] == HOW[before]):
            out.append('Bounds: ' + d['bounds'])
            out.append('Outside: ' + d['outside'])
        before = before if before and HOW[p] == HOW[before] else p
    for p, (d, reason) in NOT_APPLICABLE.items():
        out.append(f'### {p} {d["title"]} (not applicable)')
        out.append(reason)
    text = '\n\n'.join('\n'.join(textwrap.wrap(x, 118)) if not x.startswith(('#', '<')) else x for x in out)
    with open(path, 'w', encoding='utf-8') as fh:
        fh.write(head + text + '\n\n<!-- end of properties -->' + rest)


def planted():
    """Table of planted changes at the end of DESIGN.md (development only: seeded/ may be absent)"""
    seeded = os.path.join(ROOT, 'seeded')
    if not os.path.isdir(seeded):
        return
    path = os.path.join(ROOT, 'DESIGN.md')
    with open(path, encoding='utf-8') as fh:
        head = fh.read().split('<!-- planted -->')[0]
    with open(os.path.join(ROOT, 'tools', 'strengthened.txt'), encoding='utf-8') as fh:
        late = set(fh.read().split())
    out = []
    for name in sorted(os.listdir(seeded)):
        with open(os.path.join(seeded, name, 'meta.json'), encoding='utf-8') as fh:
            meta = json.load(fh)
        out.append('\n'.join(textwrap.wrap(f'* `{name}` ({meta["property"]}' + (', *' if name in late else '')
                                           + f'): {meta["needs"]}', 118, subsequent_indent='  ')))
    text = ('Each was written from the text of the property and the code. All are caught by the quick check of the '
            'property they break; those with a star only after that check had been strengthened for it.')
    with open(path, 'w', encoding='utf-8') as fh:
        fh.write(head + '<!-- planted -->\n' + '\n'.join(textwrap.wrap(text, 118)) + '\n\n' + '\n'.join(out) + '\n')


def main():
    design()
    planted()
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as fh:
        for p, d in list(PROPS.items()) + [(p, d) for p, (d, _) in NOT_APPLICABLE.items()]:
            assert len(d['title']) <= 80, p
            assert d['statement'].count('. ') <= 2, (p, d['statement'].count('. '))
            fh.write(json.dumps(line(p, d)) + '\n')
    checks = []
    for p, d in PROPS.items():
        checks.append({
            'property': p,
            'quick_cmd': f'python3-vt check.py --property {p} --tier quick',
            'thorough_cmd': f'python3-vt check.py --property {p} --tier thorough',
            'evidence_file': f'evidence/{p}.json',
            'technique': d['technique'],
            'level': 'model_checking',
            'level_note': 'Bounded: ' + d['bounds'] + ' Trusted: the symbolic models of Python built-ins (cross-checked '
                          'by replaying sampled path models on the real code), lxml, Z3.'})
    man = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && test -d /opt/venv', 'checks': checks,
           'not_applicable': [{'property': p, 'reason': r} for p, (_, r) in NOT_APPLICABLE.items()],
           'notes': 'Generated by tools/mkdocs.py from harness/catalog.py. No hooks in /repo.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


main()
