"""mkseed.py ID PROPERTY NEEDS BREAKS  <<< python edit script using sub(path, old, new)

Creates /verif/seeded/ID/patch.diff and meta.json from an edit of a scratch copy.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, needs, breaks = sys.argv[1:5]
w = tempfile.mkdtemp()
subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
def sub(path, old, new, count=1):
  p = f'{w}/r/{path}'; s = open(p, encoding='utf8').read()
  assert s.count(old) == count, (path, s.count(old), old)
  open(p, 'w', encoding='utf8').write(s.replace(old, new))
exec(sys.stdin.read())
d = f'{V}/seeded/{sid}'
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
assert diff
open(d + '/patch.diff', 'wb').write(diff)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(w)
