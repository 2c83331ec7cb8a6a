"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, level_note=None, technique=None, na=None, level='other'):
    return dict(locals())


L = []
def add(*a, **k): L.append(P(*a, **k))


MODEL = ['lib/*_frame.c', 'lib/*_thread.c', 'lib/*_stacktrace.c', 'lib/js_platform.c', 'lib/rpm.c', 'lib/operating_system.c', 'lib/report.c']
ABS = ('abstract interpretation of the compiled LLVM IR of each operation over a shape domain (every structure built as a heap graph whose '
       'attributes are opaque tokens; no solver, no execution); joins at loop heads are replaced by list lengths 0 to 3')
TRUST = ('Trusted: clang\'s IR, the models of libc/GLib/json-c in sa/absint.py, and that behaviour is uniform in the value of a token '
         '(the interpreter gives no answer for a run where it is not).')

exec(open(os.path.join(H, 'tools', 'table.py')).read())

with open(os.path.join(H, 'properties.jsonl'), 'w') as o:
    for p in L:
        o.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
m = dict(version=1, setup_cmd='bash tools/build.sh',
         checks=[], not_applicable=[],
         notes='All checks are static: they compile /repo\'s current sources to LLVM IR (clang -O0, never run), dump it with tools/irdump.cpp and analyse the dump in Python. No hooks in /repo. See DESIGN.md.')
for p in L:
    assert len(p['title']) <= 80, p['title']
    if p['na']:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    else:
        assert os.path.exists(os.path.join(H, 'checks', p['id'] + '.py')), p['id']
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 checks/%s.py quick' % p['id'],
                                thorough_cmd='python3 checks/%s.py thorough' % p['id'],
                                technique=p['technique'], level=p['level'], level_note=p['level_note']))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')
