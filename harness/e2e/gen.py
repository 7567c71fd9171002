"""Generates random loader / listener specifications, runs the repository's code
generator on them, and writes the generated C++ together with a table that tells
the driver what each name is supposed to denote.

  gen.py SEED OUTDIR GROUPS

The table encodes each path independently of the generator: a list of
"<kind> <args>" elements that the driver interprets with protobuf reflection.
"""
import json
import os
import random
import sys

from arolla.codegen.io import accessor_generator
from arolla.codegen.io import accessors
from arolla.codegen.io import array_generator
from arolla.codegen.io import cpp
from arolla.codegen.io import input_loader_lib
from arolla.codegen.io import protopath
import e2e3_pb2
import e2e_pb2

KEYS = ['k0', 'k1', 'a b', 'x.y', 'K']
T = '::arolla::Text'

# Native structs, as (kind, type): s scalar, m message, n native, p pointer to
# native, q pointer to message, v vector of scalar, w vector of native.
NATIVE = {
    'Native': {
        'x': ('s', 'int32'), 'fl': ('s', 'float'), 'str': ('s', 'string'),
        'inner': ('p', 'Inner'), 'sub': ('n', 'Sub'), 'subp': ('p', 'Sub'),
        'proto': ('m', e2e_pb2.Root.DESCRIPTOR), 'ints': ('v', 'int32'),
        'subs': ('w', 'Sub'), 'mid': ('q', e2e_pb2.Mid.DESCRIPTOR),
    },
    'Inner': {
        'a': ('s', 'int32'), 'b': ('s', 'double'),
        'leaf': ('m', e2e_pb2.Leaf.DESCRIPTOR),
    },
    'Sub': {
        'k': ('s', 'int32'), 'inner': ('n', 'Inner'), 'ptr': ('p', 'Inner'),
        'vec': ('v', 'int32'),
    },
}
EXT = {
    'e2e.Mid': ['e2e.ext_i', 'e2e.ext_leaf', 'e2e.ext_str', 'e2e.Holder.ext_d',
                'e2e.Holder.ext_mid'],
    'e2e.Root': ['e2e.Holder.root_leaf'],
}


def ext_field(name):
  return e2e_pb2.DESCRIPTOR.pool.FindExtensionByName(name)


def kind_of(f):
  if f.message_type is not None and f.message_type.GetOptions().map_entry:
    return 'map'
  if f.is_repeated if hasattr(f, 'is_repeated') else f.label == f.LABEL_REPEATED:
    return 'rep'
  return 'one'


TYPE_NAMES = {
    1: 'double', 2: 'float', 3: 'int64', 4: 'uint64', 5: 'int32', 7: 'uint32',
    8: 'bool', 9: 'string', 12: 'bytes', 13: 'uint32', 14: 'enum', 17: 'int32',
}


class Path:

  def __init__(self):
    self.text = []
    self.enc = []
    self.scalar = None  # type name of the final value
    self.is_size = False
    self.wild = False
    self.multi = 0
    self.trail = []  # (text length, encoding length, where, loops, wildcard)

  def add(self, text, enc):
    self.text.append(text)
    self.enc.append(enc)


def rand_path(r, root, want, max_len=5, wildcard=False, listener=False, base=None):
  """want: 'single' or 'multi'. Returns None if the walk got stuck.

  With base, the walk continues one of the inner places of that path."""
  p = Path()
  cur = root  # descriptor | native type name
  if base is not None:
    if not base.trail:
      return None
    i = r.randrange(len(base.trail))
    nt, ne, cur, p.multi, p.wild = base.trail[i]
    if want == 'single' and p.multi:
      return None
    p.text, p.enc, p.trail = base.text[:nt], base.enc[:ne], base.trail[: i + 1]
    max_len = r.choice([0, 0, 1, 2])
  elif root == 'vector':
    if want == 'single':
      p.add('count([:])', 'C O')
      p.is_size = True
      return p
    p.add('[:]', 'O')
    p.multi = 1
    cur = e2e_pb2.Root.DESCRIPTOR
  for step in range(max_len + 1):
    last = step >= max_len
    opts = []  # (weight, fn)
    final_ok = (want == 'single' or p.multi > 0) and (not wildcard or p.wild)

    def opt(w, text, enc, nxt=None, scalar=None, multi=0, size=False, wild=False):
      opts.append((w, text, enc, nxt, scalar, multi, size, wild))

    if isinstance(cur, str):
      for f, (k, t) in NATIVE[cur].items():
        base = '&::' + f
        if k == 's' and final_ok:
          opt(2, base, 'S ' + f, scalar=t)
        elif k == 'm':
          opt(3, base, 'S ' + f, nxt=t)
        elif k == 'n':
          opt(2, base, 'S ' + f, nxt=t)
        elif k == 'p' and not listener:
          opt(2, base + '/*', 'S ' + f + '|D', nxt=t)
        elif k == 'q' and not listener:
          opt(2, base + '/*', 'S ' + f + '|D', nxt=t)
        elif k == 'v' and want == 'multi' and not wildcard and not listener:
          opt(2, base + '/[:]', 'S ' + f + '|O', scalar=t, multi=1)
        elif k == 'w' and want == 'multi':
          opt(3, base + '/[:]', 'S ' + f + '|O', nxt=t, multi=1)
        if k in 'vw' and final_ok and not wildcard and not listener:
          opt(1, base + '/count([:])', 'S ' + f + '|C O', size=True)
    else:
      fields = [(f, f.name, 'F') for f in cur.fields]
      for e in EXT.get(cur.full_name, []):
        fields.append((ext_field(e), 'Ext::' + e, 'X ' + e))
      for f, text, tag in fields:
        k = kind_of(f)
        name = f.name
        if tag == 'F':
          enc1 = 'F ' + name
        else:
          enc1 = tag
        if k == 'one':
          if f.message_type is None:
            if final_ok:
              opt(2, text, enc1, scalar=TYPE_NAMES[f.type])
          else:
            opt(3, text, enc1, nxt=f.message_type)
            if not listener and r.random() < 0.05:
              opt(1, text + '/&/*', enc1 + '|A|D', nxt=f.message_type)
        elif k == 'rep':
          i = r.choice([0, 0, 1, 2])
          if f.message_type is None:
            if final_ok:
              opt(1, f'{name}[{i}]', f'I {name} {i}', scalar=TYPE_NAMES[f.type])
            if want == 'multi' and (not wildcard or p.wild) and not listener:
              opt(3, f'{name}[:]', f'R {name}', scalar=TYPE_NAMES[f.type], multi=1)
          else:
            opt(1, f'{name}[{i}]', f'I {name} {i}', nxt=f.message_type)
            if want == 'multi':
              opt(5, f'{name}[:]', f'R {name}', nxt=f.message_type, multi=1)
          if final_ok and not wildcard and (
              not listener or f.message_type is not None or f.type in (9, 12)):
            opt(2, f'count({name}[:])', f'C R {name}', size=True)
        else:
          kf = f.message_type.fields_by_name['key']
          vf = f.message_type.fields_by_name['value']
          if TYPE_NAMES[kf.type] == 'string':
            key = r.choice(KEYS)
            quote = r.choice(['"', '"', "'"])
            if vf.message_type is None:
              if final_ok:
                opt(2, f'{name}[{quote}{key}{quote}]', f'K {name} {key}', scalar=TYPE_NAMES[vf.type])
              if wildcard and not p.wild and (want == 'single' or p.multi):
                opt(9, f'{name}[*]', f'W {name}', scalar=TYPE_NAMES[vf.type], wild=True)
            else:
              opt(2, f'{name}[{quote}{key}{quote}]', f'K {name} {key}', nxt=vf.message_type)
              if wildcard and not p.wild:
                opt(9, f'{name}[*]', f'W {name}', nxt=vf.message_type, wild=True)
          if want == 'multi' and (not wildcard or p.wild):
            if not listener:
              opt(1, f'{name}[:]/@key', f'MK {name}', scalar=TYPE_NAMES[kf.type], multi=1)
            if vf.message_type is None:
              if not listener:
                opt(1, f'{name}[:]/@value', f'MV {name}', scalar=TYPE_NAMES[vf.type], multi=1)
            else:
              opt(2, f'{name}[:]/@value', f'MV {name}', nxt=vf.message_type, multi=1)
          if final_ok and not wildcard and not listener:
            opt(1, f'count({name}[:])', f'C R {name}', size=True)
    if not opts:
      return None
    finals = [o for o in opts if o[4] or o[6]]
    conts = [o for o in opts if o[3] is not None]
    if last:
      opts = finals
    elif finals and conts and r.random() < 0.55:
      opts = conts
    if not opts:
      return None
    w, text, enc, nxt, scalar, multi, size, wild = r.choices(opts, [o[0] for o in opts])[0]
    p.multi += multi
    p.wild = p.wild or wild
    for e in enc.split('|')[:-1]:
      p.enc.append(e)
    p.text.append(text)
    p.enc.append(enc.split('|')[-1])
    if scalar or size:
      p.scalar = scalar
      p.is_size = size
      if wildcard and not p.wild:
        return None
      if want == 'multi' and not p.multi:
        return None
      return p
    cur = nxt
    p.trail.append((len(p.text), len(p.enc), cur, p.multi, p.wild))
  return None


def make(r, root, want, **kw):
  for _ in range(2000):
    p = rand_path(r, root, want, **kw)
    if p is not None:
      return p
  raise AssertionError(f'no path: {root} {want} {kw}')


CASTS = {
    'int32': ['int64_t', 'float', 'double'],
    'int64': ['double', 'float'],
    'uint32': ['double'],
    'float': ['double'],
    'bool': ['int32_t'],
    'enum': ['int64_t', 'int32_t'],
    'string': [T, T, T],
    'bytes': [T],
}
CPP_T = {'int32_t': 'INT32', 'int64_t': 'INT64', 'float': 'FLOAT32',
         'double': 'FLOAT64', T: 'TEXT'}
DEFAULTS = {
    'int32': ('int32_t', ['0', '-5', '17']),
    'int64': ('int64_t', ['4', '-1']),
    'float': ('float', ['1.5f', '-2.0f']),
    'double': ('double', ['0.25', '8']),
    'bool': ('bool', ['true', 'false']),
}
NATURAL = {
    'int32': 'INT32', 'int64': 'INT64', 'uint32': 'INT64', 'uint64': 'UINT64',
    'float': 'FLOAT32', 'double': 'FLOAT64', 'bool': 'BOOLEAN', 'enum': 'INT32',
    'string': 'BYTES', 'bytes': 'BYTES',
}


def make_accessor(r, i, p, cls, listener, dp=0.2):
  """Returns (given name, accessor, table row)."""
  text = '/'.join(p.text)
  if r.random() < 0.3 and not text.startswith('*'):
    text = '/' + text
  cfg = accessor_generator.Config(cls, 'DenseArray', listener)
  make_fn = (accessor_generator.wildcard_protopath_accessor if p.wild
             else accessor_generator.protopath_accessor)
  name = ''
  roll = r.random()
  if roll < 0.5:
    name = f'n{i}' if roll < 0.35 else f'dir{i % 3}/name {i}'
    if p.wild:
      name = f'w{i}/%s' if roll < 0.25 else f"w{i}['%s']"
  dflt = ''
  if p.is_size:
    qt = 'SIZES' if p.multi else 'SHAPE'
    cast = ''
  else:
    cast = ''
    if p.scalar in CASTS and r.random() < 0.35 and not p.wild and not listener:
      cast = r.choice(CASTS[p.scalar])
    qt = CPP_T[cast] if cast else NATURAL[p.scalar]
  acc = make_fn(text, name, cast)(cfg)[0][1]
  if (not p.is_size and not listener and not p.multi and not p.wild
      and not cast and p.scalar in DEFAULTS and r.random() < dp):
    ct, ds = DEFAULTS[p.scalar]
    d = r.choice(ds)
    acc = protopath.Protopath.parse(text, cls).scalar_accessor_with_default_value(
        cpp_type=ct, default_value_cpp=d)
    dflt = d.rstrip('f') if d not in ('true', 'false') else str(int(d == 'true'))
  row = {
      'name': name or str(acc.default_name), 'path': p.enc, 'qt': qt,
      'multi': p.multi, 'dflt': dflt, 'wild': p.wild, 'text': text,
  }
  return name, acc, row


INPUTS = {
    'root': ('::e2e::Root', e2e_pb2.Root.DESCRIPTOR),
    'mid': ('::e2e::Mid', e2e_pb2.Mid.DESCRIPTOR),
    'top': ('::e2e3::Top', e2e3_pb2.Top.DESCRIPTOR),
    'native': ('::e2e_native::Native', 'Native'),
    'vector': ('::std::vector<::e2e::Root>', 'vector'),
}
HDRS = ['native.h']


def wide_paths(r):
  """Many repeated children at one place below the root."""
  res = []
  pre, encs, multi = r.choice([
      ('leaf', ['F leaf'], 0), ('leaves[:]', ['R leaves'], 1),
      ('a/leaf', ['F a', 'F leaf'], 0), ('mids[:]/leaf', ['R mids', 'F leaf'], 1),
      ('a/leaves[1]', ['F a', 'I leaves 1'], 0),
      ('mids[:]/leaves[:]', ['R mids', 'R leaves'], 2)])
  sizes = r.choice([0, 0.3, 1]) if multi else r.choice([0, 0, 0, 0.1])
  singles = r.choice([0, 0, 0.7])
  for f in e2e_pb2.Leaf.DESCRIPTOR.fields:
    k = kind_of(f)
    if k == 'map':
      continue
    p = Path()
    p.text, p.enc, p.multi = pre.split('/'), list(encs), multi
    if k == 'rep':
      if r.random() < sizes:
        p.add(f'count({f.name}[:])', f'C R {f.name}')
        p.is_size = True
      else:
        p.add(f.name + '[:]', 'R ' + f.name)
        p.scalar = TYPE_NAMES[f.type]
        p.multi += 1
    else:
      if r.random() >= singles:
        continue
      p.add(f.name, 'F ' + f.name)
      p.scalar = TYPE_NAMES[f.type]
    res.append(p)
  r.shuffle(res)
  return res


def flat_paths(r):
  """Many direct children, so that the tree needs artificial grouping."""
  res = []
  fs = [f for f in e2e_pb2.Root.DESCRIPTOR.fields]
  for f in fs:
    p = Path()
    k = kind_of(f)
    if k == 'one' and f.message_type is None:
      p.add(f.name, 'F ' + f.name)
      p.scalar = TYPE_NAMES[f.type]
    elif k == 'rep' and f.message_type is None:
      p.add(f.name + '[:]', 'R ' + f.name)
      p.scalar = TYPE_NAMES[f.type]
      p.multi = 1
    else:
      continue
    res.append(p)
  for f in e2e_pb2.Leaf.DESCRIPTOR.fields:
    if kind_of(f) == 'one':
      for pre, enc, m in (('leaf', 'F leaf', 0), ('leaves[:]', 'R leaves', 1)):
        p = Path()
        p.add(pre, enc)
        p.add(f.name, 'F ' + f.name)
        p.scalar = TYPE_NAMES[f.type]
        p.multi = m
        res.append(p)
  r.shuffle(res)
  return res[: r.randint(20, len(res))]


def alone(acc):
  """The same accessor without what the generator knows about its path."""
  return accessors.Accessor(acc.lambda_str, list(acc.required_includes), acc.default_name)


def loader_spec(r, idx, input_kind, n, wildcards=0, flat=False, lambdas=False,
                related=1, dflt=0.2, wide=False):
  cls, root = INPUTS[input_kind]
  accs, rows, seen = [], [], set()
  paths = []
  if flat:
    paths = wide_paths(r) if wide else flat_paths(r)
  else:
    for i in range(n):
      want = 'multi' if r.random() < 0.45 else 'single'
      paths.append(make(r, root, want, max_len=r.choice([1, 2, 3, 4, 5])))
    # related paths: same beginning, other end
    for i in range(n * related):
      base = r.choice(paths)
      q = rand_path(r, root, 'multi' if base.multi or r.random() < 0.4 else 'single', base=base)
      if q is not None and not q.wild:
        paths.append(q)
  for i in range(wildcards):
    want = 'multi' if r.random() < 0.4 else 'single'
    paths.append(make(r, root, want, max_len=4, wildcard=True))
  for i, p in enumerate(paths):
    name, acc, row = make_accessor(r, i, p, cls, False, dflt)
    if row['name'] in seen:
      continue
    seen.add(row['name'])
    accs.append((name, alone(acc) if lambdas and not p.wild else acc))
    rows.append(row)
  # plain accessors which are not protopaths
  if input_kind == 'root':
    for i in range(r.choice([0, 2, 11])):
      nm = f'plain{i}'
      accs.append((nm, accessors.Accessor(
          '[](const ::e2e::Root& input) { return static_cast<int32_t>(static_cast<uint32_t>(input.x0()) + %du); }' % i, [])))
      rows.append({'name': nm, 'path': [f'P {i}'], 'qt': 'INT32', 'multi': 0,
                   'dflt': '0', 'wild': False, 'text': f'plain {i}'})
  spec = {
      'input_cls': cls, 'accessors': accs, 'array_type': 'DenseArray',
      'hdrs': HDRS,
  }
  sh = r.choice([None, 1, 2, 3, 4])
  if wide and r.random() < 0.8:
    sh = None
  if sh is not None:
    spec['sharding'] = {'shard_count': sh}
  return {
      'kind': 'loader', 'input': input_kind, 'cls': cls,
      'name': f'::e2egen::{"ab"[idx % 2]}::GetLoader{idx}', 'rows': rows,
      'shards': min(sh or 0, len([x for x in rows if not x['wild']])),
  }, spec


def descriptor_spec(r, idx):
  cls, d = INPUTS['mid']
  ext = protopath.collect_extensions_per_containing_type([e2e_pb2.DESCRIPTOR])
  gen = array_generator.create_generator('DenseArray')
  text = r.choice(['::arolla::Text', '::arolla::Bytes'])
  lst = protopath.accessors_from_descriptor(
      d, gen, accessor_input_type=cls, type2extensions=ext, text_cpp_type=text)
  rows = []
  qtext = 'TEXT' if text.endswith('Text') else 'BYTES'

  # What a descriptor is documented to give: every scalar field reachable
  # without maps, recursion and repeated extensions, by its path.
  def walk(desc, enc, name, multi, stack):
    stack = stack | {desc.full_name}
    items = [(f, f.name, 'F ' + f.name, f.name) for f in desc.fields]
    for e in EXT.get(desc.full_name, []):
      items.append((ext_field(e), f'Ext::{e}', 'X ' + e, f'Ext::{e}'))
    for f, nm, en, _ in items:
      k = kind_of(f)
      if k == 'map':
        continue
      m = multi
      e2 = enc + [en]
      nm2 = name + '/' + nm
      if k == 'rep':
        rows.append({'name': nm2 + '/@size', 'path': enc + [f'C R {f.name}'],
                     'qt': 'SIZES' if multi else 'SHAPE', 'multi': multi})
        e2 = enc + [f'R {f.name}']
        m = multi + 1
      if f.message_type is not None:
        if f.message_type.full_name not in stack:
          walk(f.message_type, e2, nm2, m, stack)
        continue
      t = TYPE_NAMES[f.type]
      rows.append({'name': nm2, 'path': e2, 'multi': m,
                   'qt': qtext if t == 'string' else NATURAL[t]})

  walk(d, [], '', 0, frozenset())
  keep = set(r.sample([x['name'] for x in rows], 70))
  byname = {x['name']: x for x in rows}
  missing = set(byname) ^ {n for n, _ in lst}
  if missing:
    raise SystemExit('SPEC-MISMATCH accessors_from_descriptor: '
                     'names differ: ' + str(sorted(missing)[:10]))
  lst = [(n, a) for n, a in lst if n in keep]
  rows = [dict(byname[n], dflt='', wild=False, text='from descriptor') for n, _ in lst]
  spec = {'input_cls': cls, 'accessors': lst, 'hdrs': HDRS}
  return {'kind': 'loader', 'input': 'mid', 'cls': cls,
          'name': f'::e2egen::a::GetLoader{idx}', 'rows': rows, 'shards': 0}, spec


def listener_spec(r, idx, input_kind, n):
  cls, root = INPUTS[input_kind]
  accs, rows, seen, targets = [], [], set(), set()
  for i in range(n):
    want = 'multi' if r.random() < 0.45 else 'single'
    p = make(r, root, want, max_len=r.choice([1, 2, 3, 4]), listener=True)
    # the order of a resize and of an indexed write is not specified
    if any(e.startswith('I ') for e in p.enc) and (p.is_size or r.random() < 0.5):
      continue
    if p.enc[-1].startswith('F ') and want == 'single' and any(
        e.startswith(('A', 'D')) for e in p.enc):
      continue
    key = json.dumps(p.enc)
    if key in targets:
      continue
    targets.add(key)
    name, acc, row = make_accessor(r, i, p, cls, True)
    if row['name'] in seen:
      continue
    seen.add(row['name'])
    accs.append((name, acc))
    rows.append(row)
  counted = set()
  for row in rows:
    if row['qt'] in ('SHAPE', 'SIZES'):
      counted.add(json.dumps(row['path'][:-1] + [row['path'][-1].split()[-1]]))
  def bad(row):
    for j, e in enumerate(row['path']):
      if e.startswith('I '):
        pre = [x for x in row['path'][:j]]
        # any resize anywhere near an indexed write: leave it out
        return bool(counted)
    return False
  keyed = {e.split()[1] for row in rows for e in row['path'] if e.startswith('K ')}
  def loops_keyed(row):
    # whether a requested but missing value adds its map entry is not specified
    return any(e.split()[1] in keyed for e in row['path'] if e.startswith('MV '))
  ok = [not bad(row) and not loops_keyed(row) for row in rows]
  accs = [a for a, k in zip(accs, ok) if k]
  rows = [x for x, k in zip(rows, ok) if k]
  spec = {'output_cls': cls, 'accessors': accs, 'array_type': 'DenseArray',
          'hdrs': HDRS}
  sh = r.choice([None, 1, 2, 3])
  if sh is not None:
    spec['sharding'] = {'shard_count': sh}
  return {'kind': 'listener', 'input': input_kind, 'cls': cls,
          'name': f'::e2egen::l::GetListener{idx}', 'rows': rows, 'shards': 0}, spec


def cstr(s):
  return json.dumps(s)


def table(groups):
  """C++ table of everything that was generated."""
  out = ['#include "driver.h"']
  for g in groups:
    out.append(f'#include "{g["hdr"]}"')
  out.append('void RegisterAll() {')
  for g in groups:
    for e in g['entries']:
      out.append('  {\n    std::vector<e2e_driver::Row> rows;')
      for row in e['rows']:
        path = ', '.join(cstr(x) for x in row['path'])
        out.append(
            f'    rows.push_back({{{cstr(row["name"])}, {{{path}}}, {cstr(row["qt"])},'
            f' {row["multi"]}, {cstr(row["dflt"])}, {"true" if row["wild"] else "false"},'
            f' {cstr(row["text"])}}});')
      fn = 'AddLoader' if e['kind'] == 'loader' else 'AddListener'
      shards = f', []() {{ return {e["name"]}_Shards(); }}' if e['shards'] > 1 else ''
      out.append(
          f'    e2e_driver::{fn}<{e["cls"]}>({cstr(e["name"])}, std::move(rows),'
          f' []() {{ return {e["name"]}(){".value()" if e.get("value") else ""}; }}{shards});\n  }}')
  out.append('}')
  return '\n'.join(out) + '\n'


def main():
  seed, outdir, which = int(sys.argv[1]), sys.argv[2], sys.argv[3]
  os.makedirs(outdir, exist_ok=True)
  groups = []
  plan = json.loads(which)
  for gi, kind in enumerate(plan):
    if kind is None:  # left out, to reproduce a problem of another group
      continue
    r = random.Random(f'{seed}/{gi}/{kind}')
    entries, specs = [], {}
    def put(pair):
      entries.append(pair[0])
      specs[pair[0]['name']] = pair[1]
    b = gi * 10
    if kind == 'root':
      put(loader_spec(r, b, 'root', r.randint(10, 22)))
    elif kind == 'small':
      for j in range(3):
        put(loader_spec(r, b + j, r.choice(['root', 'mid', 'top']), r.randint(1, 7)))
    elif kind == 'bush':  # few beginnings, many ends
      put(loader_spec(r, b, r.choice(['root', 'root', 'mid']), r.randint(1, 4),
                      related=r.choice([6, 12]), dflt=0.5))
      put(loader_spec(r, b + 1, 'root', 0, flat=True, wide=True))
      put(loader_spec(r, b + 2, 'root', 0, flat=True, wide=True))
    elif kind == 'wild':
      put(loader_spec(r, b, r.choice(['root', 'mid']), r.randint(2, 6), wildcards=r.randint(1, 4)))
      put(loader_spec(r, b + 1, 'top', r.randint(1, 4), wildcards=r.randint(1, 2)))
    elif kind == 'flat':
      put(loader_spec(r, b, 'root', 0, flat=True))
    elif kind == 'native':
      put(loader_spec(r, b, 'native', r.randint(10, 22)))
      put(loader_spec(r, b + 1, 'vector', r.randint(4, 12)))
    elif kind == 'top':
      put(loader_spec(r, b, 'top', r.randint(10, 25)))
    elif kind == 'mid':
      put(loader_spec(r, b, 'mid', r.randint(15, 30)))
    elif kind == 'desc':
      put(descriptor_spec(r, b))
    elif kind == 'acc':
      put(loader_spec(r, b, 'root', r.randint(9, 20), lambdas=True))
      k = r.choice(['mid', 'top', 'native', 'vector'])
      put(loader_spec(r, b + 1, k, r.randint(2, 12), lambdas=True))
    elif kind == 'wildload':
      k = r.choice(['root', 'mid', 'top'])
      accs, names = [], []
      for i in range(r.randint(2, 5)):
        p = make(r, INPUTS[k][1], r.choice(['single', 'single', 'multi']), max_len=4, wildcard=True)
        name, acc, row = make_accessor(r, i, p, INPUTS[k][0], False)
        fn = f'::e2egen::{"wx"[i % 2]}::GetWild{b + i}'
        accs.append((row['name'], acc))
        names.append(fn)
        entries.append({'kind': 'loader', 'input': k, 'cls': INPUTS[k][0], 'name': fn,
                        'rows': [row], 'shards': 0, 'value': True})
    elif kind == 'listen':
      put(listener_spec(r, b, 'root', r.randint(10, 24)))
      put(listener_spec(r, b + 1, r.choice(['mid', 'top']), r.randint(4, 12)))
    target = f'//e2e/gen:g{gi}_{kind}'
    base = f'g{gi}_{kind}'
    files = []
    if kind == 'listen':
      from absl import flags
      from arolla.codegen.io import slot_listener_main as slm
      if not flags.FLAGS.is_parsed():
        flags.FLAGS(['gen', '--build_target=' + target])
      flags.FLAGS.build_target = target
      g = slm.AccessorGenerator(target, specs)
      hdr = g.header_content()
      ccs = [g.cpp_content(i) for i in range(max(1, g.max_shard_count()))]
    elif kind == 'wildload':
      g = input_loader_lib.WildcardAccessorGenerator(
          accessors_list=accs, loader_names=names, build_target=target,
          input_cls=INPUTS[k][0], extra_includes=[cpp.Include(h) for h in HDRS])
      hdr = g.header_content()
      ccs = [g.cpp_content()]
    else:
      g = input_loader_lib.AccessorGenerator(target, specs)
      hdr = g.header_content()
      ccs = [g.cpp_loader_content(i) for i in range(g.max_shard_count())]
    open(os.path.join(outdir, base + '.h'), 'w').write(hdr)
    for i, cc in enumerate(ccs):
      fn = f'{base}_{i}.cc'
      open(os.path.join(outdir, fn), 'w').write(cc)
      files.append(fn)
    groups.append({'hdr': base + '.h', 'entries': entries, 'files': files})
  open(os.path.join(outdir, 'table.cc'), 'w').write(table(groups))
  json.dump({'files': [f for g in groups for f in g['files']],
             'groups': groups}, open(os.path.join(outdir, 'spec.json'), 'w'), indent=1)


main()
