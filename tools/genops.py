"""Generates the sources that register qexpr operators.

The BUILD files and .bzl macros of the repository are run as Python (they are
in the common subset) with recording stand-ins for the rules; the templates are
rendered as by arolla/codegen/render_jinja2_template.py.
"""
import hashlib
import json
import os
import re
import subprocess
import sys

REPO = '/repo'


class Struct:
  def __init__(self, **kw):
    self.__dict__.update(kw)


class Any:
  """Stands for rules and values that do not matter."""
  def __call__(self, *a, **k): return Any()
  def __getattr__(self, n):
    if n.startswith('__'): raise AttributeError(n)
    return Any()
  def __add__(self, o): return o if isinstance(o, (list, dict)) else self
  def __radd__(self, o): return o
  def __getitem__(self, i): return Any()
  def __setitem__(self, i, v): pass
  def __iter__(self): return iter(())
  def __or__(self, o): return self


class Depset:
  def __init__(self, items=(), **_):
    self.items = list(dict.fromkeys(items))
  def to_list(self): return self.items


class World:
  def __init__(self, repo):
    self.repo = repo
    self.modules = {}
    self.renders = []
    self.package = ''

  def base(self):
    env = {}
    def load(label, *names, **renamed):
      mod = self.load(label)
      for n in names: env[n] = mod.get(n, Any()) if mod is not None else Any()
      for k, n in renamed.items(): env[k] = mod.get(n, Any()) if mod is not None else Any()
    native = Any()
    native_ns = Struct(package_name=lambda: self.package, genrule=Any(), glob=lambda *a, **k: [], existing_rule=Any(),
                       filegroup=Any(), cc_library=Any(), cc_test=Any(), alias=Any())
    env.update(load=load, struct=lambda **k: Struct(**k), select=lambda d: Any(), depset=Depset, Label=lambda x: x,
               native=native_ns, json=Struct(encode=lambda x: '', decode=json.loads), fail=self.fail,
               provider=Any(), rule=Any(), attr=Any(), aspect=Any(), package=Any(), licenses=Any(), exports_files=Any(),
               package_group=Any(), filegroup=Any(), glob=lambda *a, **k: [], cc_library=Any(), genrule=Any(),
               alias=Any(), config_setting=Any(), test_suite=Any(), visibility=Any(), zip=lambda *a: list(zip(*a)), range=lambda *a: list(range(*a)))
    return env

  def fail(self, *a):
    raise RuntimeError(' '.join(map(str, a)))

  def load(self, label):
    m = re.fullmatch(r'(?:@[^/]*)?//([^:]*):(.*)', label)
    if label.startswith('@') or not m:
      return None
    pkg, name = m.groups()
    if label == '//arolla/codegen:utils.bzl':
      return dict(arolla_repo_dep=lambda d: d, render_jinja2_template=self.render, call_python_function=Any(),
                  is_python_function_call=lambda x: False, encode_call_python_function=Any(), make_build_script=Any(),
                  python_function_call_genrule=Any(), bash_escape=lambda x: x, merge_dicts=Any())
    if 'operator_package' in label or 'optools' in label: return None
    path = os.path.join(self.repo, pkg, name)
    if path not in self.modules:
      if not os.path.exists(path): return None
      env = self.base()
      exec(compile(open(path).read(), path, 'exec'), env)
      self.modules[path] = env
    return self.modules[path]

  def render(self, name, out, template, context, **_):
    self.renders.append((self.package, out, template, context))

  def run(self, pkg):
    self.package = pkg
    path = os.path.join(self.repo, pkg, 'BUILD')
    exec(compile(open(path).read(), path, 'exec'), self.base())


PACKAGES = ['arolla/qexpr/operators/' + p for p in (
    'aggregation', 'array', 'array_like', 'bitwise', 'bool', 'bootstrap', 'core', 'dense_array', 'dict', 'math', 'math_extra',
    'random', 'seq', 'strings')] + ['arolla/jagged_shape/qexpr', 'arolla/jagged_shape/dense_array/qexpr', 'arolla/jagged_shape/array/qexpr', 'arolla/pwlcurve', 'arolla/objects/operators']


def collect(repo=REPO):
  w = World(repo)
  for p in PACKAGES:
    w.run(p)
  return w.renders


def plain(x):
  if isinstance(x, Struct): return {k: plain(v) for k, v in x.__dict__.items()}
  if isinstance(x, dict): return {k: plain(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)): return [plain(v) for v in x]
  if isinstance(x, (str, int, bool)) or x is None: return x
  return None



# Groups of overloads that are built: arrays of Array<T> only for some packages,
# since their operators are instances of the same lifters.
ARRAY_OPS = {'math.add', 'math.maximum', 'core.less', 'core.presence_and', 'core.presence_or', 'bool.logical_if', 'strings.length'}


def wanted(pkg, out, ctx):
  return True
  if out.endswith('_on_arrays.cc') and ctx['op_name'] not in ARRAY_OPS and 'qexpr/operators/a' not in pkg:
    return False
  return True


def weight(ctx):
  return sum(1 + 2 * ('Array' in ' '.join(o['args'])) for o in ctx.get('overloads', [])) or 2


def render_all(outdir, bundles):
  import jinja2
  env = jinja2.Environment(loader=jinja2.FileSystemLoader(REPO), undefined=jinja2.StrictUndefined,
                           extensions=['jinja2.ext.loopcontrols'])
  env.filters['basename'] = os.path.basename
  items = []
  for pkg, out, tpl, ctx in collect():
    ctx = plain(ctx)
    tpl = tpl.split('//')[-1].replace(':', '/')
    if not out.endswith('.cc') or not (
        tpl.endswith('operator_family_registration.cc.jinja2') or
        tpl.endswith('simple_operator.cc.jinja2') and not ctx['is_individual_operator']):
      continue
    if not wanted(pkg, out, ctx): continue
    hdrs = [h if '/' in h else pkg + '/' + h for h in ctx['hdrs']]
    ctx['hdrs'] = [h.lstrip('/').replace(':', '/') for h in hdrs]
    items.append((pkg, out, weight(ctx), env.get_template(tpl).render(ctx)))
  items.sort()
  total = sum(w for _, _, w, _ in items)
  files, text, acc, n = [], [], 0, 0
  for pkg, out, w, src in items:
    n += 1
    src = re.sub(r'\b(OpFunctor|kOpFunctorWithContext|ResultTraits|OutputSlots|InputSlots|MakeBoundOp)(\d+)\b', r'\1_%d_\2' % n, src)
    src = re.sub(r'\b(\w+_Impl)(\d+)\b', r'\1_%d_\2' % n, src)
    src = src.replace('WrapToTakeEvaluationContext', 'WrapToTakeEvaluationContext%d' % n)
    text.append(src)
    acc += w
    if acc >= total * (len(files) + 1) / bundles:
      files.append('\n'.join(text)); text = []
  if text: files.append('\n'.join(text))
  os.makedirs(outdir, exist_ok=True)
  names = []
  for i, f in enumerate(files):
    path = os.path.join(outdir, 'ops%02d.cc' % i)
    if not os.path.exists(path) or open(path).read() != f:
      with open(path, 'w') as o: o.write(f)
    names.append(path)
  for old in os.listdir(outdir):
    if os.path.join(outdir, old) not in names: os.remove(os.path.join(outdir, old))
  return names


def generate(outdir, bundles=48):
  r = subprocess.run(['/opt/arolla-venv/bin/python', os.path.abspath(__file__), outdir, str(bundles)],
                     capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
  if r.returncode: raise RuntimeError('genops: ' + r.stderr[-2000:])
  return json.loads(r.stdout)


if __name__ == '__main__':
  print(json.dumps(render_all(sys.argv[1], int(sys.argv[2]))))
