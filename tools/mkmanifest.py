#!/usr/bin/env python3
"""writes MANIFEST.json from the properties that lib/props.py decides"""
import json
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import props  # noqa: E402

LANG = ('TLA+ specification of the language (Algol60.tla) executed by TLC on generated and hand-written programs; '
        'compiler and simulator run the same programs and Conform.tla judges output, order and ending')
NOTE = ('No difference between the specification and the real compiler + simulator on the programs explored (counts in '
        'the evidence file); programs are sampled, each one is decided completely. Trusts TLC, and the specification '
        'where it is not itself cross-checked by the invariants and by the repository\'s own examples.')
TECH = {}
NOTES = {}


def main():
    ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    checks, na = [], []
    for i in ids:
        if i in props.MODULES:
            t, n = props.ABOUT.get(i, (LANG, NOTE))
            checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i,
                               thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
                               technique=t, level='model_checking', level_note=n))
        else:
            na.append(dict(property=i, reason=props.NOT.get(i, 'No check yet: specification part not written so far.')))
    json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na),
              open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
    open(V + '/MANIFEST.json', 'a').write('\n')


main()
