"""Runs one property's check.

  check.py ID [--tier quick|thorough] [--seed N]
  check.py --replay FILE
  check.py --setup            builds everything once, to warm the cache
"""
import argparse
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)
import build as B  # noqa: E402
import checks as C  # noqa: E402

PY = '/opt/arolla-venv/bin/python'
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
REPLAYS = os.path.join(EVIDENCE, 'replays')
# A shard that is still running after this long is cut short (inconclusive for
# the cases not run); sized far above the normal run time.
QUICK_MAX_S = 240
THOROUGH_MAX_S = 3600


def load_known():
  p = os.path.join(VERIF, 'known_findings.json')
  if os.path.exists(p):
    return json.load(open(p))
  return []


def py_env():
  e = dict(os.environ)
  e['PYTHONPATH'] = ':'.join(
      [B.REPO, os.path.join(B.BUILD, 'gen'), os.path.join(VERIF, 'harness', 'py')]
  )
  e['PYTHONDONTWRITEBYTECODE'] = '1'
  e['PYTHONHASHSEED'] = '0'
  e['PYTHONUTF8'] = '1'
  return e


def list_tests(comp, exe):
  if comp['kind'] in ('cc', 'e2e'):
    out = subprocess.run(
        [exe, '--list'], stdout=subprocess.PIPE, check=True
    ).stdout.decode()
  else:
    r = subprocess.run(
        [PY, os.path.join(VERIF, 'harness', 'py', 'run.py'), comp['name'], '--list'],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=py_env(),
    )
    if r.returncode:
      sys.stderr.write(r.stderr.decode("utf8", "replace")[-1200:])
      raise RuntimeError('cannot load ' + comp['name'])
    out = r.stdout.decode()
  res = []
  for l in out.splitlines():
    if not l.strip():
      continue
    name, q, t, rule = l.split('\t', 3)
    res.append((name, int(q), int(t), rule))
  return res


def e2e_plan(comp, tier):
  return comp['plan'] * (comp.get('times', 3) if tier == 'thorough' else 1)


def build_comp(comp, tier='quick', seed=1, plan=None):
  if comp['kind'] == 'e2e':
    return B.build_e2e(
        comp['name'], plan or e2e_plan(comp, tier), seed,
        comp.get('variant', 'san'), py_env(), PY)
  if comp['kind'] == 'cc':
    return B.build(
        comp['name'], comp.get('variant', 'san'), comp.get('srcs'),
        extra_srcs=comp.get('extra', ()), defines=comp.get('defines', ''),
        genops=comp.get('genops', False),
    )
  if comp.get('protos', True):
    with B.lock('build'):
      B.gen_protos(os.path.join(B.BUILD, 'gen'))
  return None


def sanitizer_env(e):
  e['ASAN_OPTIONS'] = (
      'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1'
      ':detect_stack_use_after_return=0:handle_abort=1'
  )
  e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
  e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=99'
  return e


def run_shard(comp, exe, test, tier, seed, shard, shards, workdir):
  out = os.path.join(workdir, f'{test}.{shard}.out.json')
  fail = os.path.join(workdir, f'{test}.{shard}.fail.json')
  for p in (out, fail):
    if os.path.exists(p):
      os.unlink(p)
  max_s = THOROUGH_MAX_S if tier == 'thorough' else QUICK_MAX_S
  args = [
      '--only', test, '--seed', str(seed), '--tier', tier, '--shard', str(shard),
      '--shards', str(shards), '--out', out, '--fail', fail,
      '--max-seconds', str(max_s),
  ]
  if comp['kind'] in ('cc', 'e2e'):
    cmd = [exe] + args
    if comp.get('hang'):
      cmd += ['--hang', str(comp['hang'])]
    e = sanitizer_env(dict(os.environ))
  else:
    cmd = [PY, os.path.join(VERIF, 'harness', 'py', 'run.py'), comp['name']] + args
    e = py_env()
  r = subprocess.run(
      cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
      timeout=max_s + 600,
  )
  st = {}
  if os.path.exists(out):
    try:
      st = json.load(open(out))
    except json.JSONDecodeError:
      st = {}
  fl = json.load(open(fail)) if os.path.exists(fail) else None
  return test, shard, r.returncode, r.stdout.decode('utf8', 'replace'), st, fl


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('id', nargs='?')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
  ap.add_argument('--replay')
  ap.add_argument('--setup', action='store_true')
  ap.add_argument('--only', help='run only tests whose name contains this')
  a = ap.parse_args()
  if a.setup:
    return setup()
  if a.replay:
    return replay(a.replay)
  t0 = time.time()
  tier = 'thorough' if a.tier == 'thorough' else 'quick'
  pid = a.id
  spec = C.CHECKS[pid]
  workdir = os.path.join(B.BUILD, 'run', pid)
  os.makedirs(workdir, exist_ok=True)
  os.makedirs(REPLAYS, exist_ok=True)

  jobs = []
  rules = []
  generated_errors = []
  for comp in spec['components']:
    try:
      exe = build_comp(comp, tier, a.seed)
    except B.GeneratedCodeError as e:
      generated_errors.append({
          'test': f'{pid}_{e.stage}', 'property': pid, 'component': comp['name'],
          'kind': 'e2e', 'seed': a.seed, 'tier': tier, 'plan': e.plan,
          'stage': e.stage, 'choices': [], 'confirmed': 3,
          'message': (
              'code generation fails on a valid specification\n'
              if e.stage == 'generate'
              else 'the generated code does not compile\n') + e.message,
      })
      continue
    except RuntimeError as e:
      print(f'BUILD-ERROR property={pid} component={comp["name"]}: {e}')
      return 2
    for name, q, t, rule in list_tests(comp, exe):
      if not name.startswith(pid + '_'):
        continue
      if a.only and a.only not in name:
        continue
      n = t if tier == 'thorough' else q
      if n <= 0:
        continue
      shards = comp.get('shards', 4)
      if tier == 'thorough':
        shards = max(shards, 8)
      shards = max(1, min(shards, n))
      rules.append(f'{name}: {rule}')
      for k in range(shards):
        jobs.append((comp, exe, name, k, shards))
  build_s = time.time() - t0
  if not jobs and not generated_errors:
    print('no tests for ' + pid)
    return 2

  cov = {
      'evaluations': 0, 'distinct_nontrivial': 0, 'discarded': 0,
      'rule': '; '.join(rules), 'samples': [], 'labels': {}, 'per_test': {},
  }
  violations = list(generated_errors)
  errors = []
  short = []
  with cf.ThreadPoolExecutor(max_workers=B.JOBS) as ex:
    futs = [
        ex.submit(run_shard, comp, exe, name, tier, a.seed, k, n, workdir)
        for comp, exe, name, k, n in jobs
    ]
    for (comp, exe, name, k, n), f in zip(jobs, futs):
      try:
        test, shard, rc, log, st, fl = f.result()
      except subprocess.TimeoutExpired:
        errors.append(f'{name} shard {k}: timed out')
        continue
      pt = cov['per_test'].setdefault(
          name, {'evaluations': 0, 'nontrivial': 0, 'distinct_nontrivial': 0}
      )
      cov['evaluations'] += st.get('evals', 0)
      cov['discarded'] += st.get('discards', 0)
      cov['distinct_nontrivial'] += st.get('distinct', 0)
      pt['evaluations'] += st.get('evals', 0)
      pt['nontrivial'] += st.get('nontrivial', 0)
      pt['distinct_nontrivial'] += st.get('distinct', 0)
      for l, c in st.get('labels', {}).items():
        cov['labels'][name + ':' + l] = cov['labels'].get(name + ':' + l, 0) + c
      for s in st.get('samples', [])[:2]:
        if sum(1 for x in cov['samples'] if x.startswith(name + ':')) < 2:
          cov['samples'].append(f'{name}: {s}')
      if rc == 0 and st.get('evals', 0) < st.get('planned', 0):
        short.append(f'{name} shard {shard}: {st.get("evals")}/{st.get("planned")}')
      if rc == 0:
        continue
      if rc == 1 and fl and fl.get('confirmed', 0) >= 1:
        fl['property'] = pid
        fl['component'] = comp['name']
        fl['kind'] = comp['kind']
        fl['seed'] = a.seed
        fl['tier'] = tier
        violations.append(fl)
      else:
        errors.append(f'{name} shard {shard}: rc={rc}\n{log[-3000:]}')

  # One report per test: the smallest failing case.
  by_test = {}
  for v in violations:
    cur = by_test.get(v['test'])
    if cur is None or v.get('size', len(v.get('choices', []))) < cur.get(
        'size', len(cur.get('choices', []))
    ):
      by_test[v['test']] = v

  known = [k for k in load_known() if k.get('property') == pid]
  rep = []
  known_seen = set()
  for name, v in sorted(by_test.items()):
    hit = None
    for k in known:
      if k.get('status') == 'known' and k['test'] == name and k['match'] in v['message']:
        hit = k
    if hit:
      known_seen.add(hit['id'])
      continue
    path = os.path.join(REPLAYS, f'{name}.json')
    json.dump(v, open(path, 'w'), indent=1)
    rep.append({'test': name, 'replay': path, 'message': v['message'][:2000]})
  for k in known:
    if k.get('status') == 'known':
      print(f'KNOWN-FINDING: property={pid} {k["what"]}')

  wall = time.time() - t0
  ev = {
      'property': pid, 'tier': tier, 'seed': a.seed,
      'level': 'exploration', 'coverage': cov, 'wall_s': round(wall, 2),
      'build_s': round(build_s, 2), 'violations': len(rep),
      'cut_short': short,
  }
  os.makedirs(EVIDENCE, exist_ok=True)
  json.dump(
      ev, open(os.path.join(EVIDENCE, pid + '.json'), 'w'), indent=1
  )
  print(
      f'{pid} {tier}: {cov["evaluations"]} cases, {cov["distinct_nontrivial"]}'
      f' distinct non-trivial, build {build_s:.1f}s, total {wall:.1f}s'
  )
  for s in short:
    print('CUT-SHORT ' + s)
  for r in rep:
    print(f'--- {r["test"]}\n{r["message"]}')
    print(f'VIOLATION property={pid} replay={r["replay"]}')
  if rep:
    return 1
  if errors:
    for e in errors:
      print('CHECK-ERROR ' + e)
    return 2
  return 0


def replay(path):
  v = json.load(open(path))
  comp = next(
      c for c in C.CHECKS[v['property']]['components'] if c['name'] == v['component']
  )
  try:
    exe = build_comp(comp, v.get('tier', 'quick'), v.get('seed', 1), v.get('plan'))
  except B.GeneratedCodeError as e:
    print(f'{e.stage}: {e.message}')
    return 1
  if v.get('stage'):
    print('the code is generated and compiles')
    return 0
  if comp['kind'] in ('cc', 'e2e'):
    tmp = os.path.join(B.BUILD, 'replay.txt')
    open(tmp, 'w').write(' '.join(map(str, v['choices'])))
    return subprocess.run(
        [exe, '--only', v['test'], '--replay-choices', tmp],
        env=sanitizer_env(dict(os.environ)),
    ).returncode
  return subprocess.run(
      [PY, os.path.join(VERIF, 'harness', 'py', 'run.py'), comp['name'],
       '--only', v['test'], '--replay', path],
      env=py_env(),
  ).returncode


def setup():
  seen = set()
  t = time.time()
  try:
   B.warm([
      dict(harness=c['name'], variant=c.get('variant', 'san'),
           repo_srcs=c.get('srcs'), extra_srcs=c.get('extra', ()),
           defines=c.get('defines', ''), genops=c.get('genops', False))
      for spec in C.CHECKS.values() for c in spec['components']
      if c['kind'] == 'cc'])
  except Exception as e:  # build_comp says what is wrong
    print('warm: ', e)
  print(f'warm {time.time() - t:.1f}s', flush=True)
  for pid, spec in C.CHECKS.items():
    for comp in spec['components']:
      key = (comp['kind'], comp['name'], comp.get('variant'))
      if key in seen:
        continue
      seen.add(key)
      t = time.time()
      try:
        build_comp(comp)
      except (RuntimeError, B.GeneratedCodeError) as e:
        print('setup: ', e)
      print(f'setup {key} {time.time() - t:.1f}s', flush=True)
  return 0


if __name__ == '__main__':
  sys.exit(main())
