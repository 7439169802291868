#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below (one place for both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
CHECKS = []

BASE_NOTE = (
    'Seeded search: quiet batches are evidence, not proof. Trusted: the simulator (callbacks, scheduler, normaliser), '
    'CPython 3.12, and the statement\'s oracle. '
)


def prop(id, title, statement, over, text, why, files, mech, observe, note=None, technique=None, level='exploration',
         state=None, na=None):
    p = {
        'id': id,
        'title': title,
        'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': a, 'where': b} for a, b in mech],
            'observe_at': observe,
            'hook_needed': None,
        },
    }
    if state:
        p['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    PROPS.append(p)
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append(
            {
                'property': id,
                'quick_cmd': './check %s quick' % id,
                'thorough_cmd': './check %s thorough' % id,
                'technique': technique,
                'level': level,
                'level_note': BASE_NOTE + note,
            }
        )


exec(open(os.path.join(HERE, 'tools', 'definitions.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(
        {
            'version': 1,
            'setup_cmd': './setup',
            'checks': CHECKS,
            'not_applicable': NA,
            'notes': 'No hooks in /repo: every seam the simulator needs exists already (Python callbacks, iterators, '
            'attribute access, builtins.__import__, libc clock and entropy through LD_PRELOAD, the collector and the '
            "allocator of CPython). The commits in /repo are fixes only; known-findings.txt lists them.",
        },
        f,
        indent=1,
        ensure_ascii=False,
    )
    f.write('\n')
