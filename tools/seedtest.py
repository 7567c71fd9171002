"""Validates planted bugs in isolation: seedtest.py [full] [nocheck] [thorough] ID...

Each bug is tried in a mount namespace where a copy of /repo is mounted over
/repo and scratch directories over /verif/build and /verif/evidence, so nothing
real changes. full: also rebuilds and runs the stable tests with the patch.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
flags = [a for a in args if a in ('full', 'nocheck', 'thorough', 'all')]
ids = [a for a in args if a not in flags]
if 'all' in flags: ids = sorted(os.listdir(V + '/seeded'))

def run_one(sid):
  sd = os.path.join(V, 'seeded', sid)
  meta = json.load(open(os.path.join(sd, 'meta.json')))
  w = tempfile.mkdtemp(prefix='seed-' + sid + '-')
  try:
    shutil.copytree('/repo', w + '/repo', symlinks=True)
    for x in ('cc', 'build', 'ev', 'demo'): os.makedirs(w + '/' + x)
    for f in os.listdir(sd):
      if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
        p = os.path.join(sd, f)
        shutil.copytree(p, f'{w}/demo/{f}') if os.path.isdir(p) else shutil.copy(p, w + '/demo')
    full = f'''
bash /opt/vp/build.sh >{w}/build.log 2>&1; echo "build rc $?"
bash /opt/vp/test.sh {w}/tests.json >{w}/test.log 2>&1
''' if 'full' in flags else ''
    chk = f'''
VERIF_CCACHE={w}/cc {V}/check.sh {meta["property"]} {"thorough" if "thorough" in flags else "quick"} >{w}/check.log 2>&1; echo "check rc $?"
''' if 'nocheck' not in flags else ''
    script = f'''
set -e
mount --bind {w}/repo /repo
mkdir -p {V}/build/ccache {V}/evidence
mount --bind {V}/build/ccache {w}/cc
mount --bind {w}/build {V}/build
mount --bind {w}/ev {V}/evidence
set +e
cd /repo
timeout 300 bash {w}/demo/demo.sh >{w}/demo0.log 2>&1; echo "demo0 rc $?"
git apply {V}/seeded/{sid}/patch.diff; echo "apply rc $?"
{full}
cd /repo
timeout 300 bash {w}/demo/demo.sh >{w}/demo1.log 2>&1; echo "demo1 rc $?"
{chk}
'''
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c', script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode()
    rc = {l.split(' rc ')[0]: int(l.split(' rc ')[1]) for l in out.splitlines() if ' rc ' in l}
    msgs = []
    ok = rc.get('demo0') == 0 and rc.get('apply') == 0 and rc.get('demo1', 0) != 0
    if 'full' in flags:
      if rc.get('build') != 0: ok = False; msgs.append('BUILD FAILS ' + open(w + '/build.log').read()[-800:])
      else:
        res = json.load(open(w + '/tests.json')); passed = set(res['passed'])
        miss = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in passed]
        if miss: ok = False; msgs.append(f'STABLE TESTS FAIL {miss[:5]}')
    if not ok:
      msgs.append(out[-600:])
      for f in ('demo0.log', 'demo1.log'):
        if os.path.exists(f'{w}/{f}'): msgs.append(f + ': ' + open(f'{w}/{f}', errors='replace').read()[-700:])
    line = f'{sid} {meta["property"]} {"VALID" if ok else "INVALID"}'
    if 'nocheck' not in flags:
      log = open(w + '/check.log', errors='replace').read() if os.path.exists(w + '/check.log') else ''
      caught = rc.get('check') == 1 and f'VIOLATION property={meta["property"]} ' in log
      line += ' CAUGHT' if caught else f' MISSED(rc {rc.get("check")})'
      line += ' ' + ' '.join(l[4:] for l in log.splitlines() if l.startswith('--- '))
      if not caught: msgs.append(log[-900:])
    print(line)
    for m in msgs: print('    ' + m.replace('\n', '\n    '))
    sys.stdout.flush()
  finally:
    shutil.rmtree(w, ignore_errors=True)

for i in ids: run_one(i)
