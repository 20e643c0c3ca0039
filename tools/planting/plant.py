#!/usr/bin/env python3
"""plant.py DEFS.py [ids]: builds and confirms seeded changes in scratch copies (never in /repo).

DEFS.py defines BUGS = {id: dict(prop=, edits=[(file, old, new[, count])], demo='python source', needs=, breaks=)}.
Writes /verif/seeded/<id>/ for those that apply to original lines, pass the stable tests and whose demo fails only with the change."""
import sys, os, json, subprocess, shutil, tempfile, concurrent.futures as cf, xml.etree.ElementTree as ET
BASE = '903e3a1'
PY = '/opt/venv/bin/python'
HEAD = ("import sys, os, warnings\nsys.path.insert(0, os.getcwd())\nwarnings.simplefilter('ignore')\nimport numpy as np\nimport casadi as ca\nimport do_mpc\n"
        "assert os.path.dirname(os.path.dirname(os.path.abspath(do_mpc.__file__))) == os.getcwd()\n")


def sh(cmd, cwd, env=None, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def tests(wd):
    env = dict(os.environ, PYTHONPATH=wd, MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    rep = tempfile.mktemp(suffix='.xml')
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + rep],
       os.path.join(wd, 'testing'), env)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    ok = set()
    for tc in ET.parse(rep).getroot().iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
            ok.add(tc.get('classname') + '::' + tc.get('name'))
    ok2 = {('testing.' + s if not s.startswith('testing.') else s) for s in ok}
    os.remove(rep)
    return sorted(stable - ok2)


def one(bid, b):
    wd = tempfile.mkdtemp(prefix='plant_')
    try:
        sh('cp -a /repo/. ' + wd, '/')
        sh('git checkout -q -- . ; git clean -fdq', wd)
        orig = {}
        for e in b['edits']:
            f, old, new = e[:3]
            p = os.path.join(wd, f)
            s = open(p).read()
            n = s.count(old)
            if n != (e[3] if len(e) > 3 else 1):
                return bid, 'edit of %s matches %d times' % (f, n)
            open(p, 'w').write(s.replace(old, new))
        _, diff = sh(['git', 'diff'], wd)
        # every removed line has to be an original one
        rc, _ = sh('true', wd)
        cur = None
        _, d0 = sh(['git', 'diff', '-U0'], wd)
        for l in d0.splitlines():
            if l.startswith('--- '):
                cur = l[6:]
            if l.startswith('@@'):
                a = l.split()[1][1:].split(',')
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                if n:
                    _, bl = sh(['git', 'blame', '-s', '-L', '%d,+%d' % (st, n), 'HEAD', '--', cur], wd)
                    for x in bl.splitlines():
                        if not x.lstrip('^').startswith('903e3a1'[:7]):
                            print(bid, 'NOTE: not an original line:', x, flush=True)
        out = tempfile.mkdtemp(prefix='demo_')
        open(out + '/demo.py', 'w').write(HEAD + b['demo'])
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        rc1, o1 = sh(['bash', out + '/demo.sh'], wd)
        sh('git checkout -q -- .', wd)
        rc0, o0 = sh(['bash', out + '/demo.sh'], wd)
        if rc0 != 0 or rc1 == 0:
            return bid, 'demo: clean %d patched %d\n--- clean\n%s\n--- patched\n%s' % (rc0, rc1, o0[-1500:], o1[-700:])
        open(wd + '/../%s.diff' % os.path.basename(wd), 'w').write(diff)
        rc, o = sh(['git', 'apply', '/tmp/%s.diff' % os.path.basename(wd)], wd)
        if rc:
            return bid, 'patch does not apply: ' + o
        fails = tests(wd)
        if fails:
            return bid, 'tests fail: %s' % fails
        dst = '/verif/seeded/' + bid
        os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(out + '/' + f, dst)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(dst + '/meta.json', 'w'), indent=1)
        return bid, 'planted (demo: %s)' % (o1.strip().splitlines() or ['exit %d' % rc1])[-1][-150:]
    finally:
        shutil.rmtree(wd, ignore_errors=True)
        for p in ('/tmp/%s.diff' % os.path.basename(wd),):
            if os.path.exists(p):
                os.remove(p)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:] or list(ns['BUGS'])
    with cf.ThreadPoolExecutor(7) as ex:
        for f in cf.as_completed([ex.submit(one, i, ns['BUGS'][i]) for i in ids]):
            print(*f.result(), flush=True)
