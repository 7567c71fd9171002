import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, V]
import props, checks
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
  for p in props.PROPS:
    q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
    f.write(json.dumps(q, ensure_ascii=False) + '\n')
ids = {p['id'] for p in props.PROPS}
claimed = [p for p in props.PROPS if p['id'] in checks.CHECKS]
assert set(checks.CHECKS) <= ids, set(checks.CHECKS) - ids
na = dict(props.NOT_APPLICABLE)
for p in props.PROPS:
  assert p['id'] in checks.CHECKS or p['id'] in na, p['id']
m = {
    'version': 1,
    'setup_cmd': '/verif/check.sh --setup',
    'hooks': {'guard': 'AROLLA_VERIF', 'enable': 'no hooks are needed: the checks compile the sources of /repo as they are'},
    'checks': [
        {'property': p['id'], 'quick_cmd': f'/verif/check.sh {p["id"]} quick',
         'thorough_cmd': f'/verif/check.sh {p["id"]} thorough',
         'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']}
        for p in claimed],
    'not_applicable': [{'property': i, 'reason': r} for i, r in props.NOT_APPLICABLE],
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
try:
  import jsonschema
  jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
  s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
  for l in open(os.path.join(V, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), s)
except ImportError:
  pass

def section(text, name, body):
  a, b = f'<!-- {name} -->\n', f'<!-- /{name} -->'
  i, j = text.index(a) + len(a), text.index(b)
  return text[:i] + body + text[j:]

def harness(c):
  return {'cc': f"`harness/{c['name']}.cc` ({c.get('variant')})", 'py': f"`harness/py/{c['name']}.py`",
          'e2e': f"`harness/e2e` ({c['name']}: {', '.join(dict.fromkeys(c.get('plan', [])))})"}[c['kind']]

d = open(os.path.join(V, 'DESIGN.md')).read()
body = ''
for p in props.PROPS:
  body += f"* **{p['id']} {p['title']}.** "
  if p['id'] in na:
    body += f"Not addressed: {na[p['id']]}\n"
    continue
  body += f"Decided by {p['technique']}. Domain: {p['quantifier']['text']}. Bounds: {p['note']} "
  body += f"Where: {', '.join(harness(c) for c in checks.CHECKS[p['id']]['components'])}. "
  body += f"Beyond the tests: {p['why_tests_cant']}\n"
d = section(d, 'properties', body)
k = json.load(open(os.path.join(V, 'known_findings.json')))
d = section(d, 'findings', ''.join(
    f"| {f['property']} | {f.get('commit', 'not repaired')} | {f['what'].split(f['commit'], 1)[1].strip() if f.get('commit') else f['what']} |\n" for f in k))
sd = os.path.join(V, 'seeded')
rows = '| id | property | needs | caught by |\n|---|---|---|---|\n'
for n in sorted(os.listdir(sd)):
  m_ = json.load(open(os.path.join(sd, n, 'meta.json')))
  rows += f"| {n} | {m_['property']} | {m_['needs']} | {m_['property']} |\n"
d = section(d, 'seeds', rows)
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
print(len(claimed), 'claimed')
