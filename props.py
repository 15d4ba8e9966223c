#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and
MANIFEST.json (run by hand after editing; both outputs are committed)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
S = 'seismostats/'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note,
      level='exploration'):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=[
                      dict(name=n, where=S + w) for n, w in mech])),
        technique=technique, note=note, level=level))


exec(open(os.path.join(HERE, 'props_data.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p['prop'], ensure_ascii=False) + '\n')
    man = dict(
        version=1, setup_cmd='python3 run.py --selftest',
        checks=[dict(property=p['prop']['id'],
                     quick_cmd='python3 run.py %s' % p['prop']['id'],
                     thorough_cmd='python3 run.py %s --tier thorough' %
                     p['prop']['id'],
                     evidence_file='evidence/%s.json' % p['prop']['id'],
                     technique=p['technique'], level=p['level'],
                     level_note=p['note'])
                for p in PROPS if p['technique']],
        not_applicable=[dict(property=p['prop']['id'], reason=p['note'])
                        for p in PROPS if not p['technique']],
        notes='No hooks in /repo: every monitor observes the public API from '
              'outside. Known findings and repaired defects: '
              'known_findings.txt.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()
