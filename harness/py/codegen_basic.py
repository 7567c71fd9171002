"""G01..G05: accessor collections, build-time function calls, templates, names."""

import importlib.util
import json
import math
import os
import re
import subprocess
import sys
import tempfile
import types

from hypothesis import assume
from hypothesis import strategies as st
from prop import prop

from arolla.codegen import eval_python_function_call  # noqa: F401
from arolla.codegen import render_jinja2_template as rjt
from arolla.codegen import utils
from arolla.codegen.io import accessor_generator
from arolla.codegen.io import accessors
from arolla.codegen.io import array_generator
from arolla.codegen.io import cpp
from arolla.codegen.io import flag_utils
from arolla.codegen.io import jinja_util
from arolla.codegen.io import protopath
from arolla.codegen.io import table
from arolla.proto import io_pb2

# ------------------------------------------------------------- G01 ----------

names = st.one_of(
    st.sampled_from(['a', 'b', 'c', 'ab', 'a/b', '/a', '/a/@size', 'B', '_', 'é', 'a0', 'a10', 'a9']),
    st.text(min_size=1, max_size=6),
)
headers = st.sampled_from(
    ['<vector>', '"x/y.h"', 'x/y.h', 'a.h', 'z.h', '<map>', 'arolla/m.h', '"a.h"']
)
lambdas = st.sampled_from(
    ['[](const auto& i) { return i; }', '[](const auto& i) { return i + 1; }',
     '[](const auto& i) {\n\n  return i;  \n}', '[](const auto& i) {\n  return i;\n}', 'f', 'g']
)


@st.composite
def accessor_st(draw):
  return accessors.Accessor(
      draw(lambdas),
      [cpp.Include(h) for h in draw(st.lists(headers, max_size=4))],
      draw(st.one_of(st.none(), names)),
  )


@st.composite
def named_accessors(draw, max_size=12, conflict_free=False):
  pool = draw(st.lists(accessor_st(), min_size=1, max_size=5))
  res = []
  used = {}
  for _ in range(draw(st.integers(0, max_size))):
    acc = draw(st.sampled_from(pool))
    name = draw(names)
    if acc._default_name and draw(st.booleans()):  # pylint: disable=protected-access
      name = draw(st.sampled_from(['', None]))
    eff = name or acc.default_name
    if conflict_free and eff in used and used[eff] != acc:
      continue
    used[eff] = acc
    res.append((name, acc))
  return res


def eff_name(na):
  return na[0] or na[1].default_name


def same(a, b):
  return (
      a.lambda_str == b.lambda_str
      and a.required_includes == b.required_includes
      and a._default_name == b._default_name  # pylint: disable=protected-access
  )


@prop('G01_sorted_unique', 4000, 60000, 'duplicate names present', lst=named_accessors())
def sorted_unique(c, lst):
  before = list(lst)
  by = {}
  for na in lst:
    by.setdefault(eff_name(na), []).append(na[1])
  c.nontrivial(any(len(v) > 1 for v in by.values()))
  c.key([eff_name(x) + '=' + x[1].lambda_str for x in lst])
  bad = sorted(n for n, v in by.items() if any(not same(v[0], x) for x in v))
  if bad:
    c.label('conflict')
    for f in (accessors.sorted_accessor_list, accessors.AccessorsList):
      try:
        f(lst)
      except ValueError as e:
        assert str(bad) in str(e), f'conflicting names {bad} not reported: {e}'
      else:
        raise AssertionError(f'conflicting accessors {bad} were accepted')
  else:
    res = accessors.sorted_accessor_list(lst)
    assert [n for n, _ in res] == sorted(by), f'{[n for n, _ in res]} want {sorted(by)}'
    for n, a in res:
      assert same(a, by[n][0]), f'accessor of {n!r} changed'
    al = accessors.AccessorsList(lst)
    assert al.names == sorted(by) and len(al) == len(by)
    assert len(al.accessors) == len(by) and len(al.named_accessors) == len(by)
    for n, a, (n2, a2) in zip(al.names, al.accessors, al.named_accessors):
      assert n == n2 and same(a, a2) and same(a, by[n][0])
    incs = set()
    for v in by.values():
      for a in v:
        incs |= a.required_includes
    got = al.required_includes
    assert set(got) == incs and len(got) == len(incs), f'includes {got} want {incs}'
    assert [x.include_str for x in got] == sorted(x.include_str for x in incs)
    # idempotent and independent of the order of the request
    again = accessors.AccessorsList(list(reversed(al.named_accessors)))
    assert again.names == al.names
    assert all(same(a, b) for a, b in zip(again.accessors, al.accessors))
    # the returned list is a copy
    al.named_accessors.append(('zz', None))
    assert len(al.named_accessors) == len(by)
  assert lst == before, 'argument modified'


@prop('G01_shards', 4000, 60000, 'more accessors than one shard holds',
      lst=named_accessors(30, True), n=st.integers(-1, 12), size=st.integers(1, 12))
def shards(c, lst, n, size):
  lst = accessors.sorted_accessor_list(lst)
  c.nontrivial(len(lst) > n > 1)
  c.key((len(lst), n, size))
  parts = list(accessors.split_accessors_into_shards(lst, n))
  flat = [x for p in parts for x in p]
  assert flat == lst, 'shards do not concatenate to the list'
  assert len(parts) <= max(n, 1), f'{len(parts)} shards for limit {n}'
  if n > 1:
    assert all(parts), 'empty shard'
    assert len(parts) == min(n, len(lst)), f'{len(parts)} shards of {len(lst)} for {n}'
    if parts:
      ls = [len(p) for p in parts]
      assert max(ls) - min(ls) <= 1, f'unbalanced {ls}'
  al = accessors.AccessorsList(lst)
  sh = al.shards(size)
  assert [n for s in sh for n in s.names] == al.names, 'AccessorsList.shards loses or reorders names'
  assert all(same(a, b) for a, b in zip([x for s in sh for x in s.accessors], al.accessors))
  assert all(len(s) <= size for s in sh), f'shard above {size}: {[len(s) for s in sh]}'
  assert sh and (len(al) == 0 or all(len(s) > 0 for s in sh))


@prop('G01_accessor_equality', 4000, 40000, 'the accessors differ in exactly one aspect',
      a=accessor_st(), b=accessor_st(), lam=st.text(alphabet=' \t\nab{};', max_size=40))
def accessor_eq(c, a, b, lam):
  eq = same(a, b)
  c.nontrivial(not eq)
  assert (a == b) == eq, f'{a.lambda_str!r} {b.lambda_str!r}'
  assert a == a and not (a == 'x')
  acc = accessors.Accessor(lam, [])
  got = acc.lambda_str
  want = '\n'.join(l.rstrip() for l in lam.split('\n') if l.strip())
  assert got == want, f'{got!r} want {want!r}'
  assert got.split() == lam.split(), 'code tokens changed'
  try:
    acc.default_name
  except ValueError:
    pass
  else:
    raise AssertionError('unnamed accessor has a default name')
  p = accessors.path_accessor('.x[%d].y' % len(lam), 'nm')
  assert p.lambda_str == '[](const auto& input) { return input.x[%d].y; }' % len(lam)
  assert p.default_name == 'nm' and not p.required_includes


def gen_of(lst):
  return lambda cfg: list(lst)


@prop('G01_filters', 2500, 30000, 'some but not all accessors are kept',
      lists=st.lists(named_accessors(8), max_size=4), data=st.data())
def filters(c, lists, data):
  cfg = accessor_generator.Config('Foo', 'DenseArray', data.draw(st.booleans()))
  merged = accessor_generator.merge_accessor_list(*[gen_of(l) for l in lists])
  flat = [x for l in lists for x in l]
  assert merged(cfg) == flat, 'merged list'
  pool = sorted({eff_name(x) for x in flat} | {'zzz'})
  allowed = data.draw(st.lists(st.sampled_from(pool), max_size=6))
  pred = accessor_generator.allowed_from_set(iter(allowed))
  want = [x for x in flat if eff_name(x) in allowed]
  c.key(([eff_name(x) for x in flat], allowed))
  c.nontrivial(0 < len(want) < len(flat))
  assert accessor_generator.filtered_by_name_accessor(merged, pred)(cfg) == want
  # evaluated twice gives the same answer
  g = accessor_generator.filtered_by_name_accessor(merged, pred)
  assert g(cfg) == g(cfg) == want
  p = data.draw(st.sampled_from(['.x', '.y()', ' + 1']))
  pa = accessor_generator.path_accessor(p, 'nm')(cfg)
  assert len(pa) == 1 and pa[0][0] == 'nm' and pa[0][1].lambda_str.endswith('input%s; }' % p)


@prop('G01_filter_for_models', 800, 8000, 'a name is kept and a name is dropped',
      lst=named_accessors(10), data=st.data())
def filter_models(c, lst, data):
  prefix = data.draw(st.sampled_from(['', '', 'pre/', 'a', '/']))
  pool = sorted({eff_name(x) for x in lst} | {'zzz'})
  models = data.draw(
      st.lists(
          st.tuples(
              st.lists(st.tuples(st.sampled_from(pool), st.booleans()), max_size=5),
              st.lists(st.tuples(st.sampled_from(pool), st.booleans()), max_size=5),
          ),
          max_size=3,
      )
  )
  ins, outs = set(), set()
  with tempfile.TemporaryDirectory() as d:
    files = []
    for i, (mi, mo) in enumerate(models):
      info = io_pb2.ModelInputOutputInfo()
      for n, pre in mi:
        info.inputs.add().name = (prefix if pre else '') + n
      for n, pre in mo:
        info.side_outputs.add().name = (prefix if pre else '') + n
      f = os.path.join(d, f'm{i}.textproto')
      with open(f, 'w', encoding='utf8') as fh:
        fh.write(str(info))
      files.append(f)
      for src, dst in ((info.inputs, ins), (info.side_outputs, outs)):
        for x in src:
          if x.name.startswith(prefix):
            dst.add(x.name[len(prefix):])
    gen = accessor_generator.filtered_for_models_accessor(
        gen_of(lst), files, **({'strip_prefix': prefix} if prefix or data.draw(st.booleans()) else {})
    )
  kept = set()
  for mutable in (False, True):
    want_names = outs if mutable else ins
    want = [x for x in lst if eff_name(x) in want_names]
    got = gen(accessor_generator.Config('Foo', '', mutable))
    assert got == want, f'mutable={mutable} got {[eff_name(x) for x in got]} want {[eff_name(x) for x in want]}'
    kept |= {eff_name(x) for x in got}
  c.note(repr(models), repr(prefix))
  c.nontrivial(0 < len(kept) < len({eff_name(x) for x in lst}))


# ------------------------------------------------------------- G02 ----------

CALLS = []


def record(*args, **kwargs):
  CALLS.append((args, kwargs))
  return {'r': [list(args), kwargs]}


def add(*args):
  return sum(args)


def const():
  return 'CONST'


def make_spec_again(x):
  # returns something that looks like data, never re-interpreted
  return [x]


sys.modules.setdefault('codegen_basic_fns', sys.modules[__name__])
FN = 'codegen_basic_fns.'

json_leaf = st.one_of(
    st.none(), st.booleans(), st.integers(-(2**53), 2**53),
    st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=8),
)


def spec_st():
  def ext(inner):
    args = st.lists(inner, max_size=3)
    kw = st.dictionaries(st.sampled_from(['a', 'b', 'kw_1']), inner, max_size=2)

    def mk(fn, a, k, form):
      d = {'__call_python_func__': 1, 'fn': FN + fn}
      if fn == 'record':
        if a or form:
          d['args'] = a
        if k or form:
          d['kwargs'] = k
      elif fn == 'make_spec_again':
        d['args'] = [a]
      return d

    call = st.builds(
        mk, st.sampled_from(['record', 'record', 'record', 'const', 'make_spec_again']),
        args, kw, st.booleans(),
    )
    return st.one_of(
        call, call, st.lists(inner, max_size=3),
        st.dictionaries(st.sampled_from(['x', 'y', 'fn', 'args', 'kwargs']), inner, max_size=3),
    )

  return st.recursive(json_leaf, ext, max_leaves=12)


def model_eval(x, calls):
  if isinstance(x, dict):
    if '__call_python_func__' in x:
      name = x['fn'][len(FN):]
      a = [model_eval(v, calls) for v in x.get('args', [])]
      k = {n: model_eval(v, calls) for n, v in x.get('kwargs', {}).items()}
      if name == 'record':
        calls.append((tuple(a), k))
        return {'r': [a, k]}
      if name == 'const':
        return 'CONST'
      return [a[0]]
    return {k: model_eval(v, calls) for k, v in x.items()}
  if isinstance(x, list):
    return [model_eval(v, calls) for v in x]
  return x


def depth_of_calls(x):
  if isinstance(x, dict):
    m = max([depth_of_calls(v) for v in x.values()], default=0)
    return m + ('__call_python_func__' in x)
  if isinstance(x, list):
    return max([depth_of_calls(v) for v in x], default=0)
  return 0


def eq_typed(a, b):
  if type(a) is not type(b):
    return False
  if isinstance(a, dict):
    return list(a) == list(b) and all(eq_typed(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)):
    return len(a) == len(b) and all(eq_typed(x, y) for x, y in zip(a, b))
  return a == b and repr(a) == repr(b)


@prop('G02_process', 4000, 60000, 'nested calls (depth >= 2)', spec=spec_st())
def process(c, spec):
  CALLS.clear()
  frozen = json.dumps(spec)
  calls = []
  want = model_eval(spec, calls)
  c.nontrivial(depth_of_calls(spec) >= 2)
  got = utils.process_call_function_requests(spec)
  assert eq_typed(got, want), f'got {got!r} want {want!r}'
  assert eq_typed([list(a) for a, _ in CALLS], [list(a) for a, _ in calls])
  assert eq_typed([k for _, k in CALLS], [k for _, k in calls]), 'keyword arguments'
  assert json.dumps(spec) == frozen, 'specification modified'
  assert utils.is_function_call(spec) == (isinstance(spec, dict) and '__call_python_func__' in spec)
  if utils.is_function_call(spec):
    CALLS.clear()
    assert eq_typed(utils.call_function_from_json(json.dumps(spec)), want)
    assert len(CALLS) == len(calls), 'a call was evaluated more or less than once'


@prop('G02_load_function', 600, 3000, 'always', which=st.integers(0, 5), tail=st.text('abc', min_size=1, max_size=4))
def load(c, which, tail):
  c.nontrivial()
  if which == 0:
    assert utils.load_function('math.gcd') is math.gcd
  elif which == 1:
    assert utils.load_function('os.path.join') is os.path.join
  elif which == 2:
    try:
      utils.load_function('no_such_module_%s.fn' % tail)
      raise AssertionError('no error')
    except ImportError:
      pass
  elif which == 3:
    try:
      utils.load_function('math.pi')
      raise AssertionError('no error for a non-callable')
    except TypeError:
      pass
  elif which == 4:
    try:
      utils.load_function('math.nope_' + tail)
      raise AssertionError('no error')
    except AttributeError:
      pass
  else:
    try:
      utils.call_function({'fn': 'math.gcd', 'args': [1, 2]})
    except AssertionError:
      return
    raise RuntimeError('an unmarked dictionary was called')


@prop('G02_merge_dicts', 3000, 30000, 'a key occurs in two dictionaries',
      ds=st.lists(st.dictionaries(st.sampled_from('abcd'), st.integers(0, 9)), max_size=5))
def merge(c, ds):
  copies = [dict(d) for d in ds]
  want = {}
  for d in ds:
    for k, v in d.items():
      c.nontrivial(k in want)
      want[k] = v
  got = utils.merge_dicts(*ds)
  assert got == want and ds == copies
  assert not any(got is d for d in ds), 'result aliases an argument'


@prop('G02_files', 400, 4000, 'non-ASCII content', text=st.text(max_size=50), raw=st.binary(max_size=60))
def files(c, text, raw):
  with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'f')
    try:
      enc = text.encode('utf-8')
    except UnicodeEncodeError:
      assume(False)
    c.nontrivial(any(ord(x) > 127 for x in text))
    utils.write_file(p, text)
    assert utils.read_file(p) == enc
    utils.write_file(p, raw)
    assert utils.read_file(p) == raw


# -- the build-rule side (Starlark is executed as Python with stand-ins) ------


class Struct:

  def __init__(self, **kw):
    self.__dict__.update(kw)


class _Json:

  @staticmethod
  def encode(x):
    def conv(v):
      if isinstance(v, Struct):
        return {k: conv(y) for k, y in sorted(v.__dict__.items())}
      if isinstance(v, dict):
        return {k: conv(y) for k, y in v.items()}
      if isinstance(v, (list, tuple)):
        return [conv(y) for y in v]
      return v

    return json.dumps(conv(x), separators=(',', ':'), ensure_ascii=False)


class _Depset:

  def __init__(self, items=()):
    self.items = list(items)

  def to_list(self):
    return list(dict.fromkeys(self.items))


def load_bzl(path, extra=None):
  rules = []

  class Native:

    def genrule(self, **kw):
      rules.append(('genrule', kw))

  def fail(msg):
    raise RuntimeError('fail: ' + str(msg))

  env = {
      'load': lambda *a, **k: None,
      'struct': Struct, 'json': _Json, 'depset': _Depset, 'fail': fail,
      'native': Native(), 'Label': lambda x: x,
      'py_binary': lambda **kw: rules.append(('py_binary', kw)),
      'structs': types.SimpleNamespace(to_dict=lambda s: dict(s.__dict__)),
  }
  env.update(extra or {})
  repo = os.environ.get('VERIF_REPO', '/repo')
  with open(os.path.join(repo, path), encoding='utf8') as f:
    exec(compile(f.read(), path, 'exec'), env)  # pylint: disable=exec-used
  env['__rules__'] = rules
  return env


BZL = load_bzl('arolla/codegen/utils.bzl')


def no_make_vars(s):
  return not re.search(r'\$\((location|execpath|rootpath)|\$@|\$<', s) and '\0' not in s


safe_text = st.text(
    alphabet=st.characters(blacklist_categories=('Cs',), blacklist_characters='\0'), max_size=10
).filter(no_make_vars) | st.text('"\'\\$`{}()ab\n\t @<!', max_size=10).filter(no_make_vars)


def bzl_value(depth=2):
  leaf = st.one_of(st.booleans(), st.integers(-1000, 1000), safe_text)
  if depth == 0:
    return leaf
  return st.one_of(
      leaf, safe_text, st.lists(bzl_value(depth - 1), max_size=3),
      st.dictionaries(st.text('abc_', min_size=1, max_size=4), bzl_value(depth - 1), max_size=3),
  )


def expand_make(s):
  """Bazel's make-variable expansion for a string without make variables."""
  assert '$' not in s.replace('$$', ''), f'unescaped make variable in {s!r}'
  return s.replace('$$', '$')


def shell_unquote(s):
  """What bash makes of "..." with this content (no expansions allowed)."""
  out = []
  i = 0
  while i < len(s):
    ch = s[i]
    if ch == '\\' and i + 1 < len(s) and s[i + 1] in '\\"`$\n':
      if s[i + 1] != '\n':
        out.append(s[i + 1])
      i += 2
      continue
    assert ch not in '"`', f'unescaped {ch} in {s!r}'
    out.append(ch)
    i += 1
  return ''.join(out)


def no_dollar_expansion(s):
  # a `$` followed by something bash would expand is beyond the macro's contract
  return not re.search(r'\$[A-Za-z0-9_({?!#*@\'"$-]', s)


@prop('G02_bzl_spec_roundtrip', 2500, 30000, 'text needing escapes, or a nested call',
      args=st.lists(bzl_value(), max_size=3), inner=st.lists(bzl_value(1), max_size=2),
      kwargs=st.dictionaries(st.sampled_from(['k1', 'k2']), bzl_value(1), max_size=2),
      nest=st.booleans(), deps=st.lists(st.sampled_from(['//a', '//b', '//c']), max_size=3))
def bzl_spec(c, args, inner, kwargs, nest, deps):
  whole = json.dumps([args, inner, kwargs], ensure_ascii=False)
  if not no_dollar_expansion(whole):
    args = json.loads(json.dumps(args).replace('$', 'S'))
    inner = json.loads(json.dumps(inner).replace('$', 'S'))
    kwargs = json.loads(json.dumps(kwargs).replace('$', 'S'))
  call = BZL['call_python_function']
  full = list(args)
  if nest:
    full.append(call(FN + 'record', list(inner), deps=['//inner'], data=['d1']))
  spec = call(FN + 'record', full, deps=list(deps), kwargs=dict(kwargs), data=['d0'])
  assert BZL['is_python_function_call'](spec)
  want_deps = sorted(set(deps) | ({'//inner'} if nest else set()))
  assert spec.deps == want_deps, f'{spec.deps} want {want_deps}'
  assert spec.data == (['d0', 'd1'] if nest else ['d0'])
  enc = BZL['encode_call_python_function'](spec)
  text = shell_unquote(expand_make(enc))
  CALLS.clear()
  c.nontrivial(nest or bool(re.search(r'["\\$`]', whole)))
  utils.call_function_from_json(text)
  got_args, got_kwargs = CALLS[-1]
  want = list(args) + ([{'r': [list(inner), {}]}] if nest else [])
  assert eq_typed(list(got_args), want), f'got {got_args!r} want {want!r}'
  assert eq_typed(got_kwargs, dict(sorted(kwargs.items()))) or got_kwargs == kwargs
  assert len(CALLS) == 1 + nest


@prop('G02_bzl_escape', 3000, 30000, 'a character special to the shell or to make',
      s=st.text('"\\`$@<()ab loctinexpahr{}', max_size=25), mv=st.sampled_from(['$(location x)', '$(execpath //a:b)', '$(rootpath q)', '$@', '$<']))
def bzl_escape(c, s, mv):
  c.nontrivial(any(x in s for x in '"\\`$'))
  if no_dollar_expansion(s):
    assert shell_unquote(expand_make(BZL['bash_escape'](s))) == s
  if no_make_vars(s) and not s.endswith('$') :
    e = BZL['bash_escape_wo_make_vars'](s)
    assert e == BZL['bash_escape'](s), 'text without make variables must be fully escaped'
    e = BZL['bash_escape_wo_make_vars'](mv + s) if not (mv + s).startswith('$$') else None
    if e is not None and no_make_vars(s):
      assert e.startswith(mv), f'{mv} was escaped: {e!r}'


# ------------------------------------------------------------- G03 ----------


@prop('G03_cescape', 4000, 40000, 'non-ASCII or special characters', t=st.one_of(st.text(max_size=20), st.binary(max_size=20)))
def cescape(c, t):
  raw = t.encode('utf8', 'surrogatepass') if isinstance(t, str) else t
  if isinstance(t, str):
    try:
      t.encode('utf8')
    except UnicodeEncodeError:
      assume(False)
  c.nontrivial(any(b > 126 or b < 32 or b in b'"\\' for b in raw))
  e = rjt._cescape(t)
  # A C string literal made only of hexadecimal escapes denotes those bytes.
  assert re.fullmatch(r'(\\x[0-9a-fA-F]{2})*', e), e
  assert bytes(int(x, 16) for x in re.findall(r'\\x(..)', e)) == raw


@prop('G03_c_identifier', 4000, 40000, 'the text contains characters outside identifiers',
      t=st.one_of(st.text(max_size=15), st.text('ab1_-. /', max_size=10)))
def c_identifier(c, t):
  try:
    r = rjt._as_c_identifier(t)
  except ValueError:
    c.label('rejected')
    words = re.findall(r'\w+', t.replace('_', ' '))
    words = ''.join(ch if ch.isalnum() else ' ' for ch in t).split()
    assert not words or words[0][0].isdigit(), f'{t!r} has a usable identifier'
    return
  c.nontrivial(r != t)
  assert r and not r[0].isdigit() and all(ch == '_' or ch.isalnum() for ch in r), f'{t!r} -> {r!r}'
  assert [x for x in r.split('_')] == ''.join(ch if ch.isalnum() else ' ' for ch in t).split()
  assert rjt._as_c_identifier(r) == r, 'not idempotent'


@prop('G03_render', 500, 6000, 'a call is evaluated inside the context',
      ctx=st.dictionaries(st.sampled_from(['a', 'b', 'cc']), spec_st(), min_size=1, max_size=3),
      prefix=st.text('xyz {}%#\n', max_size=8))
def render(c, ctx, prefix):
  calls = []
  want_ctx = {k: model_eval(v, calls) for k, v in ctx.items()}
  c.nontrivial(bool(calls))
  if any(x in prefix for x in ('{{', '{%', '{#', '}}', '%}', '#}')) or prefix.endswith('{') or prefix.endswith('\n'):
    prefix = 'p'
  cwd = os.getcwd()
  with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    try:
      with open('t.jinja2', 'w', encoding='utf8') as f:
        f.write(prefix + ''.join('{{ %s|string|cescape }}|' % k for k in sorted(ctx)))
      CALLS.clear()
      rjt.render_jinja2_template('t.jinja2', ctx, 'out.txt')
      with open('out.txt', encoding='utf8', newline='') as f:
        got = f.read()
      n = len(CALLS)
      # An undefined variable is an error, never empty output.
      with open('u.jinja2', 'w', encoding='utf8') as f:
        f.write('{{ nosuch }}')
      try:
        rjt.render_jinja2_template('u.jinja2', ctx, 'out2.txt')
      except Exception as e:  # pylint: disable=broad-except
        assert 'nosuch' in str(e)
      else:
        raise AssertionError('undefined variable rendered')
    finally:
      os.chdir(cwd)
  def hx(s):
    return ''.join('\\x%02x' % b for b in s.encode('utf8'))
  try:
    want = prefix + ''.join(hx(str(want_ctx[k])) + '|' for k in sorted(ctx))
  except UnicodeEncodeError:
    assume(False)
  assert got == want, f'got {got!r} want {want!r}'
  assert n == len(calls), 'context evaluated more than once'


@prop('G03_common_prefix', 4000, 40000, 'adjacent strings share a prefix',
      l=st.one_of(st.lists(st.text('ab/', max_size=8), max_size=10), st.lists(st.text(max_size=4), max_size=6)))
def common_prefix(c, l):
  orig = list(l)
  got = utils.remove_common_prefix_with_previous_string(iter(l))
  assert len(got) == len(l) and l == orig
  prev = None
  for i, (g, o) in enumerate(zip(got, l)):
    if i == 0:
      assert g == o
    else:
      cut = len(o) - len(g)
      assert o.endswith(g) and o[:cut] == prev[:cut], f'{g!r} is not a suffix of {o!r} after a shared prefix'
      longest = 0
      while longest < min(len(o), len(prev)) and o[longest] == prev[longest]:
        longest += 1
      assert cut == longest, f'{o!r} after {prev!r}: removed {cut} of {longest}'
      c.nontrivial(cut > 0)
    prev = o


@prop('G03_wrap_lambda', 3000, 30000, 'wrapped multi-line text', t=st.text('ab \n;{}', max_size=40), w=st.booleans())
def wrap_lambda(c, t, w):
  r = jinja_util.maybe_wrap_with_lambda(t, w)
  core = t.lstrip('\n')
  c.nontrivial(w and '\n' in core)
  if not w:
    assert r == core
    return
  assert r.startswith('[&]() {\n') and r.endswith('\n}();'), r
  body = r[len('[&]() {\n'):-len('\n}();')]
  assert body.split('\n') == ['  ' + x if x else x for x in core.split('\n')], f'{t!r} -> {r!r}'


@prop('G03_array_builder', 500, 4000, 'always', p=st.from_regex(r'[a-z_]{0,6}', fullmatch=True),
      v=st.from_regex(r'[a-z][a-z0-9_]{0,6}', fullmatch=True), t=st.sampled_from(['', 'DenseArray', 'Array', 'Foo']))
def array_builder(c, p, v, t):
  c.nontrivial()
  if t == '':
    assert array_generator.create_generator(t, p) is None
    return
  if t != 'DenseArray':
    try:
      array_generator.create_generator(t, p)
    except NotImplementedError:
      return
    raise AssertionError('unsupported array type accepted')
  g = array_generator.create_generator(t, p)
  code = g.define_array('int', 'n', 'f') + g.push_back_item(v) + g.push_back_empty_item() + g.return_array()
  # All declared identifiers carry the prefix.
  decl = re.findall(r'(?:auto|int64_t|AlmostFullBuilder|Builder) (\w+)', code) + re.findall(r'using (\w+) =', code)
  assert len(decl) >= 5 and all(x.startswith(p) for x in decl), decl
  assert f'Add({v})' in g.push_back_item(v)


# ------------------------------------------------------------- G04 ----------

ident = st.from_regex(r'[A-Za-z_][A-Za-z0-9_]{0,6}', fullmatch=True)


@prop('G04_cpp_name', 4000, 40000, 'a namespace of two or more parts',
      ns=st.lists(ident, max_size=4), name=ident, lead=st.booleans())
def cpp_name(c, ns, name, lead):
  c.nontrivial(len(ns) >= 2)
  full = '::'.join(ns + [name])
  n = cpp.CppName.from_full_name(('::' if lead else '') + full)
  assert n.name == name and n.namespace == '::'.join(ns)
  assert n.full_name == ('::' + full if ns else name), n.full_name
  again = cpp.CppName.from_full_name(n.full_name)
  assert (again.namespace, again.name) == (n.namespace, n.name), 'round trip'
  m = cpp.CppName(('::' if lead else '') + '::'.join(ns), name)
  assert m.full_name == n.full_name
  if ns:
    assert n.open_namespace_str == 'namespace %s {' % '::'.join(ns)
    assert n.close_namespace_str.startswith('}') and '::'.join(ns) in n.close_namespace_str
  else:
    assert n.open_namespace_str == '' and n.close_namespace_str == ''
  try:
    cpp.CppName('a', full + '::x')
  except ValueError:
    pass
  else:
    raise AssertionError('qualified name accepted as a plain name')


@prop('G04_include', 3000, 30000, 'quoted and unquoted spellings of one header',
      hs=st.lists(st.tuples(st.from_regex(r'[a-z/]{1,6}\.h', fullmatch=True), st.sampled_from(['', '"', '<'])), max_size=8))
def include(c, hs):
  def spell(h, q):
    return {'': h, '"': f'"{h}"', '<': f'<{h}>'}[q]

  incs = [cpp.Include(spell(h, q)) for h, q in hs]
  canon = ['#include ' + (f'<{h}>' if q == '<' else f'"{h}"') for h, q in hs]
  c.nontrivial(len(set(canon)) < len(set(hs)))
  for i, w in zip(incs, canon):
    assert str(i) == w == i.include_str
    for j, w2 in zip(incs, canon):
      assert (i == j) == (w == w2)
      assert (i < j) == (w < w2)
      if i == j:
        assert hash(i) == hash(j)
  assert [str(x) for x in sorted(set(incs))] == sorted(set(canon))


@prop('G04_header_guard', 2000, 20000, 'target with a package and a name',
      pkg=st.lists(st.from_regex(r'[a-z][a-z0-9_]{0,5}', fullmatch=True), min_size=1, max_size=4),
      name=st.from_regex(r'[a-z][a-z0-9_]{0,8}', fullmatch=True), name2=st.from_regex(r'[a-z][a-z0-9_]{0,8}', fullmatch=True))
def header_guard(c, pkg, name, name2):
  c.nontrivial()
  g = cpp.generate_header_guard('//' + '/'.join(pkg) + ':' + name)
  assert g == '_'.join(pkg + [name]).upper() + '_H_', g
  assert re.fullmatch(r'[A-Z_][A-Z0-9_]*', g)
  assert (cpp.generate_header_guard('//' + '/'.join(pkg) + ':' + name2) == g) == (name == name2)


printable = st.text(alphabet=[chr(x) for x in range(32, 127)], max_size=8)


@prop('G04_operator_names', 5000, 60000, 'accessor name with characters outside identifiers',
      ns=st.lists(ident, max_size=2), name=ident, a=printable, b=printable, edit=st.integers(0, 7), ch=st.sampled_from([chr(x) for x in range(32, 127)]))
def operator_names(c, ns, name, a, b, edit, ch):
  n = cpp.CppName.from_full_name('::'.join(ns + [name]))
  if edit < len(a) and len(b) % 2:
    b = a[:edit] + ch + a[edit + 1:]
  ra, rb = cpp.construct_operator_name(n, a), cpp.construct_operator_name(n, b)
  c.nontrivial(a != b and not (a + b).isalnum())
  for r in (ra, rb):
    assert re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', r), f'{a!r} -> {r!r} is not an identifier'
  assert (ra == rb) == (a == b), f'accessors {a!r} and {b!r} share the name {ra}'
  assert cpp.construct_operator_name(n, a) == ra
  q = cpp.construct_input_qtype_operator_name(n)
  assert re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', q)
  assert q != ra or 'QTYPE' in a


# ------------------------------------------------------------- G05 ----------

seg = st.one_of(
    ident,
    st.builds(lambda f, k: table.MapAccess(f, k), ident, st.text('abc_ .0', max_size=4)),
    st.builds(lambda f, i: table.ArrayAccess(f, i), ident, st.integers(0, 99)),
    st.builds(lambda f: table.ProtoExtensionAccess('.'.join(f)), st.lists(ident, min_size=1, max_size=3)),
)


@prop('G05_table_path', 4000, 40000, 'a path of three or more segments',
      segs=st.lists(st.one_of(seg, st.sampled_from(['@key', '@value'])), max_size=6), last=seg, cut=st.integers(0, 6))
def table_path(c, segs, last, cut):
  c.nontrivial(len(segs) >= 3)
  p = table.TablePath()
  for s in segs:
    q = str(p)
    if s == '@key':
      nxt = p.MapKeys()
    elif s == '@value':
      nxt = p.MapValues()
    else:
      nxt = p.Child(s)
    assert str(p) == q, 'a child changed its parent'
    p = nxt
  root = '/' + '/'.join(segs)
  base = '/'.join([''] + segs)
  assert str(p) == (root if segs else '/'), f'{p} want {root}'
  assert str(p.Column(last)) == base + '/' + last
  assert str(p.Size(last)) == base + '/' + last + '/@size'
  assert str(p.Size('')) == base + '/@size'
  assert p == table.TablePath('/'.join(segs)), 'name given at once'
  # paths are equal exactly when their names are equal
  o = table.TablePath()
  for s in segs[:cut]:
    o = o.Child(s)
  assert (o == p) == (len(segs[:cut]) == len(segs))
  assert table.FieldAccess(last) == last


@prop('G05_access_names', 3000, 30000, 'always', f=ident, k=st.text('abc"[]/\\ ', max_size=6), i=st.integers(0, 10**6))
def access_names(c, f, k, i):
  c.nontrivial()
  assert table.MapAccess(f, k) == f'{f}["{k}"]'
  assert table.ArrayAccess(f, i) == f'{f}[{i}]'
  assert table.ProtoExtensionAccess(f + '.' + f) == f'Ext::{f}.{f}'


@prop('G05_name_policies', 3000, 30000, 'a path of two or more segments',
      segs=st.lists(seg.filter(lambda x: '/' not in x), min_size=1, max_size=5), size=st.booleans())
def name_policies(c, segs, size):
  c.nontrivial(len(segs) >= 2)
  parts = segs + (['@size'] if size else [])
  full = '/' + '/'.join(parts)
  m = protopath.default_name_modifiers
  assert m['default'](full) == full
  assert m['single_underscore'](full) == '_'.join(parts)
  assert m['double_underscore'](full) == '__'.join(parts)
  assert m['leaf_only'](full) == (full if size else parts[-1])


@prop('G05_wildcard_flag', 3000, 20000, 'all four parts are non-empty',
      parts=st.lists(st.text('ab/[*]"%s.:', max_size=8).filter(lambda x: '~' not in x), min_size=1, max_size=6))
def wildcard_flag(c, parts):
  p = flag_utils.WildcardProtopathAccessorParser()
  s = '~~'.join(parts)
  c.nontrivial(len(parts) == 4 and all(parts))
  if len(parts) == 4:
    assert tuple(p.parse(s)) == tuple(parts), p.parse(s)
  else:
    try:
      p.parse(s)
    except ValueError:
      return
    raise AssertionError(f'{s!r} accepted')


@prop('G02_accessor_flag', 600, 5000, 'always', names_=st.lists(ident, min_size=1, max_size=4))
def accessor_flag(c, names_):
  c.nontrivial()
  parser = flag_utils.AccessorGeneratorParser()
  spec = {
      '__call_python_func__': 1,
      'fn': 'arolla.codegen.io.accessor_generator.merge_accessor_list',
      'args': [
          {'__call_python_func__': 1,
           'fn': 'arolla.codegen.io.accessor_generator.path_accessor',
           'args': ['.' + n, n]} for n in names_
      ],
  }
  got = parser.parse(json.dumps(spec))(accessor_generator.Config('X', '', False))
  assert [n for n, _ in got] == names_
  assert all(a.lambda_str.endswith(f'input.{n}; }}') for n, a in got)
