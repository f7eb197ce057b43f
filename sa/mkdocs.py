"""Writes properties.jsonl and MANIFEST.json from sa/proptext.py and the registry.
python3 -m sa.mkdocs"""
import json, os, re, sys
from . import front, prop
from .proptext import TEXT, NOTAPP


def main():
    P = prop.load_all()
    out, checks, na = [], [], []
    schema = json.load(open('/root/.vp/PROPERTIES.schema.json')) if os.path.exists('/root/.vp/PROPERTIES.schema.json') else None
    for t in sorted(TEXT, key=lambda t: t['id']):
        pid = t['id']
        files, mech = list(t['files']), list(t.get('mech', ()))
        tp = front.VERIF + '/sa/tables/%s.json' % pid
        if pid in P and os.path.exists(tp) and not mech:
            for k in json.load(open(tp)):
                if k[0] == '@': continue
                q = re.sub(r'[/~@].*', '', k)
                if q not in mech: mech.append(q)
            if len(mech) > 14: mech = mech[:14]
        assert len(t['title']) <= 80, (pid, len(t['title']))
        out.append({'id': pid, 'title': t['title'], 'statement': t['statement'],
                    'quantifier': {'over': t['over'], 'text': t['qtext']}, 'why_tests_cant': t['why'],
                    'anchors': {'files': files, 'mechanism': [{'name': m, 'where': files[0]} if isinstance(m, str) else m for m in mech]}})
        for f in files: assert os.path.exists(front.REPO + '/' + f), f
        if pid in P:
            checks.append({'property': pid, 'quick_cmd': 'python3 -m sa.check ' + pid, 'thorough_cmd': 'python3 -m sa.check %s --thorough' % pid,
                           'technique': P[pid].technique or 'guarded-effect summaries of the resolved syntax tree (path-sensitive value numbering with canonical boolean guards), compared per function with the effects the property requires',
                           'level': 'other',
                           'level_note': P[pid].level_note or t.get('note') or 'Static analysis: decides that each anchored function still has exactly the guarded effects (stores, calls, results) the property needs on every path; aliasing between distinct access paths and opaque library calls are assumed benign; behaviour of whole schedules is argued from these local obligations in DESIGN.md.'})
        else:
            assert pid in NOTAPP, pid
            na.append({'property': pid, 'reason': NOTAPP[pid]})
    for pid in P: assert any(t['id'] == pid for t in TEXT), 'no text for ' + pid
    open(front.VERIF + '/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in out))
    json.dump({'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na}, open(front.VERIF + '/MANIFEST.json', 'w'), indent=1)
    print(len(out), 'properties', len(checks), 'checks', len(na), 'not applicable')


main()
