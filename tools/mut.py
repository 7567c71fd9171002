"""Mutation trials: mut.py FILE [NAME...]; FILE defines MUTS = [(name, path, old, new, [checks])].

Each trial runs the quick checks in a mount namespace over a copy of /repo with
the replacement made; nothing real changes. Prints which checks raised.
"""
import os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = runpy.run_path(sys.argv[1]); want = sys.argv[2:]
for name, path, old, new, checks in ns['MUTS']:
  if want and not any(x in name for x in want): continue
  src = open('/repo/' + path).read()
  if src.count(old) < 1: print(name, 'NO MATCH'); continue
  if src.count(old) > 1: print(name, f'note: {src.count(old)} matches, first taken')
  w = tempfile.mkdtemp(prefix='mut-')
  try:
    shutil.copytree('/repo', w + '/repo', symlinks=True)
    for x in ('cc', 'build', 'ev'): os.makedirs(w + '/' + x)
    open(f'{w}/repo/{path}', 'w').write(src.replace(old, new, 1))
    runs = '\n'.join(f'VERIF_CCACHE={w}/cc {V}/check.sh {c} {ns.get("TIER","quick")} >{w}/{c}.log 2>&1; echo "{c} rc $?"' for c in checks)
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'''set -e
mount --bind {w}/repo /repo
mkdir -p {V}/build/ccache
mount --bind {V}/build/ccache {w}/cc
mount --bind {w}/build {V}/build
mount --bind {w}/ev {V}/evidence
set +e
{runs}
'''], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    for l in r.stdout.decode().splitlines():
      if ' rc ' not in l: print('   ', l); continue
      c, rc = l.split(' rc ')
      log = open(f'{w}/{c}.log', errors='replace').read()
      tag = 'CAUGHT' if rc == '1' and 'VIOLATION property=' in log else 'missed' if rc == '0' else 'BROKEN rc ' + rc
      fails = [x for x in log.splitlines() if x.startswith('--- ')]
      print(name, c, tag, ' '.join(x[4:90] for x in fails[:4]))
      if tag.startswith('BROKEN'): print(log[-800:])
    sys.stdout.flush()
  finally: shutil.rmtree(w, ignore_errors=True)
