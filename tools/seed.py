"""Plant, confirm and replay seeded bugs (development tool; no check uses it).

  seed.py make FILE     FILE defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=C source or .py text, needs, breaks)]
  seed.py run [id...]   replay: apply, run the property's check, undo
"""
import sys, os, json, subprocess, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(H, 'seeded')

DEMO_C = '''#!/bin/bash
d=$(mktemp -d) || exit 2
trap 'rm -r "$d"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
gcc -w -g %s-I/repo/include -I/repo/lib $(pkg-config --cflags glib-2.0 json-c) "$here/demo.c" -o "$d/demo" \\
  -L/repo/lib/.libs -lsatyr $(pkg-config --libs glib-2.0 json-c) -Wl,-rpath,/repo/lib/.libs || exit 3
cd "$d"
timeout 60 %s./demo
'''
DEMO_PY = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -r "$d"' EXIT
mkdir "$d/satyr"
cp /repo/python/__init__.py "$d/satyr/"
cp /repo/python/.libs/_satyr3.so "$d/satyr/"
cd "$d"
LD_LIBRARY_PATH=/repo/lib/.libs PYTHONPATH="$d" PYTHONDONTWRITEBYTECODE=1 timeout 60 python3 "$here/demo.py"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh('git -C /repo checkout -- .')


def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, r.stdout


def demo(d):
    return sh('cd /repo && timeout 300 bash %s/demo.sh' % d)


def tests():
    sh('bash /opt/vp/test.sh /tmp/seed_o.json')
    return set(json.load(open('/tmp/seed_o.json'))['passed'])


def base():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passed', 'tests'):
        if k in b:
            return set(b[k])
    return set(b)


def check(prop):
    r = sh('cd %s && python3 checks/%s.py quick' % (H, prop))
    v = [l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
    return r.returncode, v


def make(sd, force=False):
    d = os.path.join(S, sd['id'])
    assert sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip() == '', 'dirty /repo'
    os.makedirs(d, exist_ok=True)
    for fn, txt in sd.get('files', {}).items():
        open(os.path.join(d, fn), 'w').write(txt)
    py = sd['demo'].lstrip().startswith('import') or sd['demo'].lstrip().startswith('from')
    open(os.path.join(d, 'demo.py' if py else 'demo.c'), 'w').write(sd['demo'])
    open(os.path.join(d, 'demo.sh'), 'w').write(sd.get('sh') or (DEMO_PY if py else DEMO_C % ('', 'valgrind -q --error-exitcode=9 %s' % ('--leak-check=full --errors-for-leak-kinds=definite ' if sd.get('leak') else '') if sd.get('vg') else '')))
    json.dump(dict(property=sd['prop'], needs=sd['needs'], what_it_breaks=sd['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ok = False
    try:
        bad = []
        for f, a, b in sd['edits']:
            p = '/repo/' + f
            t = open(p).read()
            if t.count(a) != 1:
                bad.append('edit matches %d times in %s: %s' % (t.count(a), f, a[:60]))
                continue
            open(p, 'w').write(t.replace(a, b))
        if bad:
            return print(sd['id'], 'BAD', bad)
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
        okb, out = build()
        if not okb:
            return print(sd['id'], 'does not build', out[-800:])
        miss = base() - tests()
        if miss:
            return print(sd['id'], 'fails tests', sorted(miss)[:4])
        r = demo(d)
        if r.returncode in (0, 2, 3):
            return print(sd['id'], 'demo passes with the patch', r.returncode, r.stdout[-600:])
        rc, v = check(sd['prop']) if os.path.exists('%s/checks/%s.py' % (H, sd['prop'])) else (None, ['no check'])
        clean()
        build()
        r = demo(d)
        if r.returncode != 0:
            return print(sd['id'], 'demo fails without the patch', r.returncode, r.stdout[-600:])
        ok = True
        print(sd['id'], sd['prop'], {1: 'CAUGHT', 0: 'MISSED'}.get(rc, 'rc %s' % rc), '|', (v[0] if v else '')[:200])
    finally:
        clean()
        build()
        if not ok:
            shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        for sd in ns['SEEDS']:
            if len(sys.argv) > 3 and sd['id'] not in sys.argv[3:]:
                continue
            make(sd)
    else:
        for i in sys.argv[2:] or sorted(os.listdir(S)):
            d = os.path.join(S, i)
            prop = json.load(open(d + '/meta.json'))['property']
            if sh('git -C /repo apply %s/patch.diff' % d).returncode:
                print(i, 'does not apply')
                continue
            try:
                rc, v = check(prop)
            finally:
                clean()
            print(i, prop, {1: 'CAUGHT', 0: 'MISSED'}.get(rc, 'rc %s' % rc), '|', (v[0] if v else '')[:160])
