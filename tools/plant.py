"""Confirms a planted bug in a scratch copy of /repo: python3 tools/plant.py <id>... [--fast]

demo on the unchanged copy (0), patch, build, the stable tests, demo (nonzero), then the check of its property"""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
LONG = 'tests/estimators/online/test_joint_ukf.py'


def sh(cmd, cwd, out=None, timeout=3000, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', **env)
    p = subprocess.run(cmd, cwd=cwd, shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def tests(d):
    passed = set()
    base = f'{PY} -m pytest -q -p no:cacheprovider --timeout=800 --disable-warnings --continue-on-collection-errors ' \
           '--ignore=tests/models/test_thevenin.py -o junit_family=xunit2'
    sh(f'({base} --junitxml={d}.long.xml -n 3 {LONG} & {base} --junitxml={d}.rest.xml -n 5 --ignore={LONG} tests; wait)', d, PYTHONPATH=d)
    for f in ('long', 'rest'):
        for c in ET.parse(f'{d}.{f}.xml').getroot().iter('testcase'):
            if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
                passed.add(f"{c.get('classname')}::{c.get('name')}")
        os.remove(f'{d}.{f}.xml')
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [s for s in stable if s not in passed]


def plant(bug, fast):
    src = f'{VERIF}/seeded/{bug}'
    meta = json.load(open(f'{src}/meta.json'))
    d = f'/tmp/plant.{bug}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(d + '.demo', ignore_errors=True)
    shutil.copytree(os.environ.get('PLANT_BASE', '/repo'), d, symlinks=True)
    shutil.copytree(src, d + '.demo')
    out = {}
    try:
        rc, txt = sh(f'bash {d}.demo/demo.sh', d, timeout=300)
        out['demo unchanged'] = rc
        if rc:
            print(txt[-1500:])
        rc, txt = sh(f'git apply --check {src}/patch.diff && git apply {src}/patch.diff && {PY} -m compileall -q --invalidation-mode checked-hash moirae', d)
        out['apply'] = rc
        if rc:
            print(txt)
        rc, txt = sh(f'bash {d}.demo/demo.sh', d, timeout=300)
        out['demo patched'] = rc
        out['demo says'] = txt.strip().splitlines()[-1:] if txt.strip() else ''
        rc, txt = sh(f'{VERIF}/check.sh {meta["property"]}', VERIF, VC_REPO=d, VERIF_SEED='1', VERIF_TIER='quick')
        out['check'] = rc
        out['says'] = [x[:150] for x in txt.splitlines() if x.startswith('VIOLATION')][:2]
        if not fast:
            out['tests failing'] = tests(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '.demo', ignore_errors=True)
    good = out['demo unchanged'] == 0 and out['apply'] == 0 and out['demo patched'] != 0 and not out.get('tests failing')
    print(bug, meta['property'], 'COUNTS' if good else 'DOES NOT COUNT', 'CAUGHT' if out['check'] == 1 else 'MISSED', json.dumps(out), flush=True)


for a in sys.argv[1:]:
    if not a.startswith('--'):
        plant(a, '--fast' in sys.argv)
