"""Write /verif/seeded/<id>/ from a specification (a Python file with one
`seed(...)` call per planted change) and try it out in scratch copies.

    python3 tools/mkseed.py SPEC.py [id ...]        write, and run the demos
    python3 tools/mkseed.py --tests id ...          run the stable tests
    python3 tools/mkseed.py --check id ...          run the property's check
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0 where the property holds for the demonstrated case, 1 where it does not
export CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
SPECS = {}


def seed(id, prop, edits, demo, needs, breaks):
    SPECS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs,
                     breaks=breaks)


def copy_repo(where):
    subprocess.check_call(['cp', '-a', '/repo', where])


def run_demo(sid, tree):
    r = subprocess.run(['bash', os.path.join(SEEDED, sid, 'demo.sh')],
                       cwd=tree, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def write(sid, tree):
    s = SPECS[sid]
    d = os.path.join(SEEDED, sid)
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=tree)
    for f, old, new in s['edits']:
        p = os.path.join(tree, f)
        t = open(p).read()
        assert t.count(old) == 1, (sid, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=tree, text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
    json.dump(dict(property=s['prop'], needs=s['needs'],
                   what_it_breaks=s['breaks']),
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    bad = run_demo(sid, tree)
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=tree)
    good = run_demo(sid, tree)
    ok = good[0] == 0 and bad[0] != 0
    print(sid, s['prop'], 'demo', 'OK' if ok else 'BAD',
          '' if ok else (good, bad), flush=True)
    if ok:
        print('     ', bad[1].strip().split('\n')[-1][:150])


def apply(sid, tree):
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=tree)
    subprocess.check_call(['git', 'apply', os.path.join(
        SEEDED, sid, 'patch.diff')], cwd=tree)


def tests(sid, tree):
    apply(sid, tree)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               TF_NUM_INTRAOP_THREADS='1', TF_NUM_INTEROP_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               CUDA_VISIBLE_DEVICES='', JAX_PLATFORMS='cpu',
               PYTHONPATH=tree, PYTHONHASHSEED='0')
    r = subprocess.run(
        [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '6',
         '--dist', 'worksteal', '--timeout=600', '-x',
         '--ignore=tests/test_contlin_speedtest.py',
         '--ignore=tests/test_hjb_grid_1d_speedtest.py',
         '--ignore=tests/test_hjb_grid_1d_tf.py', 'tests'],
        cwd=tree, env=env, capture_output=True, text=True)
    print(sid, 'tests', r.returncode, r.stdout.strip().split('\n')[-6:],
          flush=True)


def check(sid, tree):
    apply(sid, tree)
    prop = json.load(open(os.path.join(SEEDED, sid, 'meta.json')))['property']
    r = subprocess.run(['bash', os.path.join(HERE, 'run.sh'), prop],
                       cwd=HERE, env=dict(os.environ, VERIF_REPO=tree),
                       capture_output=True, text=True)
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print(sid, prop, 'check', r.returncode, v[:1] or r.stdout[-500:],
          flush=True)


def main():
    args = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix='mkseed')
    tree = os.path.join(tmp, 'repo')
    try:
        copy_repo(tree)
        if args[0] in ('--tests', '--check'):
            for sid in args[1:] or sorted(os.listdir(SEEDED)):
                (tests if args[0] == '--tests' else check)(sid, tree)
            return
        exec(compile(open(args[0]).read(), args[0], 'exec'), globals())
        for sid in args[1:] or SPECS:
            write(sid, tree)
    finally:
        shutil.rmtree(tmp)


main()
