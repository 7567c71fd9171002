"""Runs the Hypothesis properties of one module (see check.py for the protocol).

A module declares properties with @prop(name, quick, thorough, rule, **strategies);
the function gets a Ctx and the generated values as keyword arguments.
"""
import argparse
import hashlib
import importlib
import json
import os
import re
import signal
import sys
import time
import traceback

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, given, settings  # noqa: E402
import prop as P  # noqa: E402

CASE_LIMIT_S = 120


class Hang(AssertionError):
  pass


def on_alarm(*_):
  raise Hang(f'one case did not finish within {CASE_LIMIT_S} s')


class Ctx:

  def __init__(self, run):
    self._run = run
    self.notes = []
    self.is_nontrivial = False
    self.labels = []
    self._key = None

  def nontrivial(self, cond=True):
    if cond:
      self.is_nontrivial = True

  def label(self, s):
    self.labels.append(str(s))

  def note(self, *a):
    self.notes.append(' '.join(str(x) for x in a))

  def key(self, k):
    self._key = k


class Run:

  def __init__(self, deadline):
    self.deadline = deadline
    self.evals = 0
    self.discards = 0
    self.nontrivial = 0
    self.distinct = set()
    self.labels = {}
    self.samples = []
    self.failed = False
    self.last_notes = ''
    self.last_size = 0


def body(t, run, kwargs):
  if time.time() > run.deadline and not run.failed:
    return
  ctx = Ctx(run)
  signal.alarm(CASE_LIMIT_S)
  try:
    t.fn(ctx, **kwargs)
  except hypothesis.errors.UnsatisfiedAssumption:
    run.discards += not run.failed
    raise
  except (hypothesis.errors.StopTest, hypothesis.errors.Frozen):
    raise
  except BaseException as e:
    if type(e).__module__.startswith('hypothesis'):
      raise
    run.failed = True
    desc = {k: repr(v) for k, v in kwargs.items() if 'DataObject' not in type(v).__name__}
    run.last_notes = '\n'.join([f'{k}={v}' for k, v in desc.items()] + ctx.notes)
    run.last_size = len(run.last_notes)
    raise
  finally:
    signal.alarm(0)
  if run.failed:
    return
  run.evals += 1
  for l in ctx.labels:
    run.labels[l] = run.labels.get(l, 0) + 1
  if ctx.is_nontrivial:
    run.nontrivial += 1
    key = ctx._key
    if key is None:
      key = repr([v for v in kwargs.values() if 'DataObject' not in type(v).__name__]) + '|'.join(ctx.notes)
    else:
      key = repr(key)
    h = hashlib.md5(key.encode('utf8', 'replace')).digest()[:8]
    if h not in run.distinct:
      run.distinct.add(h)
      if len(run.samples) < 3:
        run.samples.append(key[:600])


def make(t, run, n, seed, blob=None):
  st = settings(
      max_examples=max(1, n), database=None, deadline=None, print_blob=True,
      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
      verbosity=Verbosity.quiet,
      phases=[Phase.generate, Phase.shrink] if blob is None else [Phase.reuse, Phase.generate],
  )

  def wrapper(**kw):
    body(t, run, kw)

  wrapper.__name__ = t.name
  f = given(**t.strategies)(wrapper)
  f = hypothesis.seed(seed)(f)
  f = st(f)
  if blob is not None:
    f = hypothesis.reproduce_failure(hypothesis.__version__, blob)(f)
  return f


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('module')
  ap.add_argument('--list', action='store_true')
  ap.add_argument('--only')
  ap.add_argument('--seed', type=int, default=1)
  ap.add_argument('--tier', default='quick')
  ap.add_argument('--shard', type=int, default=0)
  ap.add_argument('--shards', type=int, default=1)
  ap.add_argument('--out')
  ap.add_argument('--fail')
  ap.add_argument('--max-seconds', type=float, default=1e9)
  ap.add_argument('--replay')
  a = ap.parse_args()
  importlib.import_module(a.module)
  if a.list:
    for t in P.TESTS.values():
      print(f'{t.name}\t{t.quick}\t{t.thorough}\t{t.rule}')
    return 0
  t = P.TESTS[a.only]
  signal.signal(signal.SIGALRM, on_alarm)
  sys.setrecursionlimit(10000)
  run = Run(time.time() + a.max_seconds)
  if a.replay:
    v = json.load(open(a.replay))
    try:
      make(t, run, 1, 0, bytes.fromhex(v['blob']))()
    except Exception:  # pylint: disable=broad-except
      traceback.print_exc()
      print(run.last_notes)
      print('REPLAY: fails')
      return 1
    print('REPLAY: passes')
    return 0
  n = t.thorough if a.tier == 'thorough' else t.quick
  planned = n // a.shards + (a.shard < n % a.shards)
  seed = int.from_bytes(
      hashlib.md5(f'{a.seed}/{t.name}/{a.shard}'.encode()).digest()[:8], 'big'
  )
  rc = 0
  fail = None
  try:
    make(t, run, planned, seed)()
  except BaseException as e:  # pylint: disable=broad-except
    if isinstance(e, KeyboardInterrupt):
      raise
    notes = '\n'.join(getattr(e, '__notes__', []))
    m = re.search(r"reproduce_failure\('[^']*', (b'.*?'|b\".*?\")\)", notes)
    tb = traceback.format_exc()
    if m is None:
      print(tb)
      print(notes)
      print('failure without a reproduction (flaky or a harness error)')
      return 3
    blob = eval(m.group(1))  # pylint: disable=eval-used
    confirmed = 0
    last_notes = run.last_notes
    for _ in range(3):
      r2 = Run(1e18)
      try:
        make(t, r2, 1, 0, blob)()
      except (hypothesis.errors.DidNotReproduce, hypothesis.errors.Flaky):
        pass
      except BaseException:  # pylint: disable=broad-except
        confirmed += 1
        last_notes = r2.last_notes or last_notes
    tail = [l for l in tb.splitlines() if l.strip()][-12:]
    fail = {
        'test': t.name, 'outcome': type(e).__name__, 'confirmed': confirmed,
        'message': (str(e) or type(e).__name__)[:3000] + '\n' + '\n'.join(tail)[:2500],
        'notes': last_notes[:6000], 'size': run.last_size, 'blob': blob.hex(),
    }
    print(tb[-3000:])
    print(last_notes[:3000])
    rc = 1
  if a.fail and fail:
    json.dump(fail, open(a.fail, 'w'), indent=1)
  if a.out:
    json.dump(
        {'evals': run.evals, 'discards': run.discards, 'planned': planned,
         'nontrivial': run.nontrivial, 'distinct': len(run.distinct),
         'labels': run.labels, 'samples': run.samples},
        open(a.out, 'w'),
    )
  return rc


if __name__ == '__main__':
  sys.modules.setdefault('run', sys.modules['__main__'])
  sys.exit(main())
