#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py and
claims.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props   # noqa: E402
import claims  # noqa: E402


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in props.PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in props.PROPS:
        c = claims.CLAIMS.get(p['id'])
        if isinstance(c, tuple):
            technique, level, note = c
            checks.append(dict(
                property=p['id'],
                quick_cmd='./check %s --tier quick' % p['id'],
                thorough_cmd='./check %s --tier thorough' % p['id'],
                technique=technique, level=level,
                level_note=' '.join(note.split())))
        else:
            na.append(dict(property=p['id'],
                           reason=c or 'no check built yet'))
    m = dict(version=1, setup_cmd='./setup', checks=checks,
             not_applicable=na, notes=' '.join(claims.NOTES.split()))
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
    try:
        import jsonschema
    except ImportError:
        return
    s = json.load(open('/root/.vp/MANIFEST.schema.json'))
    jsonschema.validate(m, s)
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props.PROPS:
        jsonschema.validate(p, s)
        n = p['statement'].count('. ') + 1
        if n > 3:
            print(p['id'], n, 'sentences')
    print(len(props.PROPS), 'properties', len(checks), 'claimed')


if __name__ == '__main__':
    main()
