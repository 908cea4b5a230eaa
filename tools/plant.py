"""Authoring tool: plants a bug in a scratch copy, confirms that it builds,
passes the stable tests and is shown by its demonstration, and keeps it.
Usage: plant.py SPEC.py [check]; SPEC.py defines id, prop, edits
[(file, old, new)], demo, needs, breaks."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def passed(path):
    with open(path) as f:
        d = json.load(f)
    return set(d.get('passed') or d.get('pass') or d.get('stable'))


def main(specs, check):
    for spec in specs:
        g = {}
        with open(spec) as f:
            exec(compile(f.read(), spec, 'exec'), g)
        for b in g['BUGS']:
            one(b, check)


def one(b, check):
    sid = b['id']
    d = os.path.join(V, 'seeded', sid)
    if os.path.exists(os.path.join(d, 'meta.json')):
        print(sid, 'exists')
    else:
        t = tempfile.mkdtemp(prefix='plant-')
        try:
            r = os.path.join(t, 'repo')
            subprocess.check_call(['cp', '-a', '/repo', r])
            for path, old, new in b['edits']:
                p = os.path.join(r, path)
                with open(p) as f:
                    s = f.read()
                if s.count(old) != 1:
                    print(sid, 'edit matches', s.count(old), 'times:', old[:60])
                    return
                with open(p, 'w') as f:
                    f.write(s.replace(old, new))
            rc, patch = sh('git diff', r)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'patch.diff'), 'w') as f:
                f.write(patch)
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                        'PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 '
                        'exec /opt/venv/bin/python "$here/demo.py"\n')
            with open(os.path.join(d, 'demo.py'), 'w') as f:
                f.write(b['demo'].lstrip('\n'))
            a, out1 = sh('bash %s/demo.sh' % d, '/repo')
            c, out2 = sh('bash %s/demo.sh' % d, r)
            sh('sed s#/repo#%s#g /opt/vp/test.sh > %s/test.sh' % (r, t))
            sh('bash %s/test.sh %s/out.json' % (t, t))
            lost = passed('/opt/vp/BASELINE.json') - passed(t + '/out.json')
            ok = a == 0 and c != 0 and not lost
            print(sid, 'KEPT' if ok else 'REJECTED', 'demo', a, c,
                  'lost tests', sorted(lost)[:3])
            if not ok:
                print(out1[-500:], out2[-300:])
                shutil.rmtree(d)
                return
            with open(os.path.join(d, 'meta.json'), 'w') as f:
                json.dump({'property': b['prop'], 'needs': b['needs'],
                           'what_it_breaks': b['breaks']}, f, indent=1)
                f.write('\n')
        finally:
            shutil.rmtree(t, ignore_errors=True)
    if check:
        catch(sid, b['prop'])


def catch(sid, prop):
    d = os.path.join(V, 'seeded', sid)
    rc, out = sh('git -C /repo apply %s/patch.diff' % d)
    if rc:
        print(sid, 'does not apply', out)
        return
    try:
        rc, out = sh('python3 check.py %s' % prop, V, 900)
    finally:
        sh('git -C /repo checkout -- .')
    lines = [x for x in out.splitlines() if x.strip()]
    print(sid, prop, 'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc,
          (lines[0] if lines else '')[:260])


if __name__ == '__main__':
    if sys.argv[1] == 'catch':
        for sid in sys.argv[2:] or sorted(os.listdir(V + '/seeded')):
            with open(os.path.join(V, 'seeded', sid, 'meta.json')) as f:
                catch(sid, json.load(f)['property'])
    else:
        main(sys.argv[1:2], len(sys.argv) > 2)
