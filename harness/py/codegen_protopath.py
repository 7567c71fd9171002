"""Protopath texts, path trees, collection plans, accessors from descriptors.

The model works on a list of segments drawn here; the library only ever sees
the rendered text.
"""
import re
import string

from google.protobuf import descriptor as pbd
from google.protobuf import descriptor_pb2
from google.protobuf import descriptor_pool
from hypothesis import assume
from hypothesis import strategies as st
from prop import prop

from arolla.codegen.io import accessors
from arolla.codegen.io import array_generator
from arolla.codegen.io import cpp
from arolla.codegen.io import multi_protopath as mp
from arolla.codegen.io import protopath

Protopath = protopath.Protopath
DENSE = array_generator.create_generator('DenseArray')

# ---------------------------------------------------------------- model -----
# A segment is a tuple: (kind, *args)
#   field f | struct f | ext full.name | idx f i | key f k | wild f |
#   deref | addr | range f | keys f | vals f | orig | count f | countorig

ident = st.sampled_from(
    ['a', 'b', 'c', 'x', 'y', 'ab', 'foo_bar', 'X', 'class', 'do', 'size', 'count', 'value', 'key', '_q', 'f1'])
keytext = st.text(alphabet=string.ascii_letters + string.digits + ' .-:*_%,()+é', min_size=1, max_size=5)
extname = st.sampled_from(['p.ext', 'p.Msg.ext', 'p.other', 'ext'])

MULTI = {'range', 'keys', 'vals', 'orig'}
SIZE = {'count', 'countorig'}


def single_seg():
  return st.one_of(
      st.tuples(st.just('field'), ident), st.tuples(st.just('field'), ident),
      st.tuples(st.just('idx'), ident, st.integers(0, 12)),
      st.tuples(st.just('key'), ident, keytext),
      st.tuples(st.just('ext'), extname),
      st.tuples(st.just('struct'), ident),
      st.just(('deref',)), st.just(('addr',)),
  )


def multi_seg():
  return st.one_of(
      st.tuples(st.just('range'), ident), st.tuples(st.just('range'), ident),
      st.tuples(st.just('keys'), ident), st.tuples(st.just('vals'), ident))


@st.composite
def path_st(draw, max_len=5, multi=True, wild=0, size=True, min_multi=0):
  n = draw(st.integers(1, max_len))
  segs = [draw(st.one_of(single_seg(), single_seg(), multi_seg()) if multi else single_seg())
          for _ in range(n)]
  if multi and draw(st.integers(0, 9)) == 0:
    segs.insert(0, ('orig',))
  while sum(s[0] in MULTI for s in segs) < min_multi:
    segs.insert(draw(st.integers(0, len(segs))), draw(multi_seg()))
  for _ in range(wild):
    segs.insert(draw(st.integers(0, len(segs))), ('wild', draw(ident)))
  if any(s[0] == 'orig' for s in segs[1:]):  # the original container is outermost
    segs = [('orig',)] + [s for s in segs if s[0] != 'orig']
  if size and draw(st.integers(0, 4)) == 0:
    segs.append(('count', draw(ident)))
  elif size and multi and draw(st.integers(0, 30)) == 0:
    segs = [('countorig',)]
  return tuple(segs)


def canon(s):
  """The canonical text of one segment."""
  k = s[0]
  return {
      'field': lambda: s[1], 'struct': lambda: '&::' + s[1],
      'ext': lambda: 'Ext::' + s[1], 'idx': lambda: f'{s[1]}[{s[2]}]',
      'key': lambda: f'{s[1]}["{s[2]}"]', 'wild': lambda: f'{s[1]}[*]',
      'deref': lambda: '*', 'addr': lambda: '&',
      'range': lambda: s[1] + '[:]', 'keys': lambda: s[1] + '[:]@key',
      'vals': lambda: s[1] + '[:]@value', 'orig': lambda: '[:]',
      'count': lambda: f'count({s[1]}[:])', 'countorig': lambda: 'count([:])',
  }[k]()


def spell(segs, bits):
  """A text for the path; `bits` picks among equivalent spellings."""
  out = []
  for s in segs:
    t = canon(s)
    bits, b = divmod(bits, 2)
    if b and s[0] in ('keys', 'vals'):
      t = t.replace('[:]@', '[:]/@')
    if b and s[0] == 'key' and "'" not in s[2]:
      t = f"{s[1]}['{s[2]}']"
    out.append(t)
  return ('/' if bits % 2 else '') + '/'.join(out)


def name_of(segs):
  parts = []
  for s in segs:
    k = s[0]
    if k in ('field', 'struct', 'range'):
      parts.append(s[1])
    elif k == 'ext':
      parts.append('Ext::' + s[1])
    elif k == 'idx':
      parts.append(f'{s[1]}[{s[2]}]')
    elif k == 'key':
      parts.append(f'{s[1]}["{s[2]}"]')
    elif k == 'wild':
      parts.append(f'{s[1]}["%s"]')
    elif k == 'keys':
      parts += [s[1], '@key']
    elif k == 'vals':
      parts += [s[1], '@value']
    elif k == 'count':
      parts += [s[1], '@size']
    elif k == 'countorig':
      parts += ['@size']
  return '/' + '/'.join(parts)


def split_multi(segs):
  groups, cur = [], []
  for s in segs:
    if s[0] in MULTI:
      groups.append((cur, s))
      cur = []
    else:
      cur.append(s)
  return groups, cur


# ------------------------------------------------------------------ G06 -----


@prop('G06_parse', 5000, 60000, 'at least three segments, one of them repeated or keyed',
      segs=path_st(), bits=st.integers(0, 255), itype=st.sampled_from(['auto', '::ns::T']))
def parse(c, segs, bits, itype):
  text = spell(segs, bits)
  c.nontrivial(len(segs) > 2 and any(s[0] not in ('field', 'struct') for s in segs))
  c.key(text)
  p = Protopath.parse(text, input_type=itype)
  groups, last = split_multi(segs)
  assert p.is_single_value == (not groups), text
  assert p.is_size == (segs[-1][0] in SIZE), text
  assert p.protopath == text, f'{p.protopath!r} is not the original text {text!r}'
  got = [([e.protopath_element() for e in a], b.protopath_element()) for a, b in p.multi_elems]
  want = [([canon(s) for s in a], canon(b)) for a, b in groups]
  assert got == want, f'{text}: repeated parts {got} want {want}'
  got = [e.protopath_element() for e in p.last_path_list]
  assert got == [canon(s) for s in last], f'{text}: last part {got}'
  assert not any(e.is_wildcard for e in p.last_path_list)
  assert p.default_name == name_of(segs), f'{text}: default name {p.default_name!r} want {name_of(segs)!r}'
  # equivalent spellings have equal elements, and the canonical text denotes the path
  q = Protopath.parse('/'.join(canon(s) for s in segs))
  assert q.last_path_list == p.last_path_list and q.multi_elems == p.multi_elems, text
  assert q.default_name == p.default_name


@prop('G06_equality', 5000, 60000, 'two different segments with the same text parts',
      a=st.one_of(single_seg(), multi_seg(), st.tuples(st.just('count'), ident), st.tuples(st.just('wild'), ident)),
      b=st.one_of(single_seg(), multi_seg(), st.tuples(st.just('count'), ident), st.tuples(st.just('wild'), ident)),
      same=st.sampled_from([0, 0, 1, 2]), end=st.booleans())
def equality(c, a, b, same, end):
  if same == 1:
    b = a
  elif same == 2 and len(a) > 1 and len(b) > 1 and 'ext' not in (a[0], b[0]):
    b = (b[0], a[1], *b[2:])
  c.nontrivial(a != b and len(a) > 1 and len(b) > 1 and a[1] == b[1])

  def element(s):
    if s[0] == 'wild':
      return Protopath.parse_wildcard(canon(s)).last_path_list[0]
    if s[0] in MULTI:
      return Protopath.parse(canon(s)).multi_elems[0][1]
    if s[0] == 'count' or end:
      return Protopath.parse(canon(s)).last_path_list[-1]
    return Protopath.parse(canon(s) + '/zz').last_path_list[0]

  x, y = element(a), element(b)
  assert (x == y) == (a == b), f'{canon(a)} vs {canon(b)}: equal is {x == y}'
  assert (y == x) == (a == b)
  assert (x != y) == (a != b)
  if a[0] not in MULTI:
    assert x.is_wildcard == (a[0] == 'wild')
    if a[0] not in SIZE:
      assert not (x == 'text') and not (x is None)


@prop('G06_wildcard', 3000, 40000, 'exactly one wildcard',
      segs=path_st(wild=0), more=st.lists(st.tuples(st.integers(0, 5), ident), max_size=3), bits=st.integers(0, 255))
def wildcard(c, segs, more, bits):
  segs = list(segs)
  for at, f in more:
    at = min(at, len(segs))
    if segs and segs[0][0] in ('orig', 'countorig'):
      at = max(at, 1)
    segs.insert(at, ('wild', f))
  sized = segs[-1][0] in SIZE
  inner = any(s[0] in SIZE for s in segs[:-1])
  assume(not inner)
  text = spell(segs, bits)
  n = len(more)
  c.nontrivial(n == 1 and not sized)
  c.label(f'{n} wildcards')
  for f, ok in ((Protopath.parse, n == 0), (Protopath.parse_wildcard, n == 1 and not sized)):
    try:
      p = f(text)
    except ValueError as e:
      assert not ok, f'{f.__name__}({text!r}) rejected: {e}'
      assert text.lstrip('/').split('/')[0].split('@')[0][:1] in str(e)
      continue
    assert ok, f'{f.__name__}({text!r}) accepted with {n} wildcards'
    assert p.default_name == name_of(segs), (text, p.default_name)
  if n == 1 and not sized:
    p = Protopath.parse_wildcard(text)
    acc = p.accessor(DENSE)
    # the name is a format with one hole, and the key is an argument
    key = 'k"%d/x'
    if '%' not in name_of([s for s in segs if s[0] != 'wild']):
      assert acc.default_name % key == name_of(
          [('field', f'{s[1]}["{key}"]') if s[0] == 'wild' else s for s in segs])
    head = acc.lambda_str.split(')')[0]
    assert 'absl::string_view' in head, head
    try:
      p.mutable_accessor(array_gen=DENSE)
    except ValueError:
      pass
    else:
      raise AssertionError('mutable wildcard accessor accepted')


junk = st.sampled_from(['', 'a b', '1a', 'a[', 'a]', 'a[]', 'a[1', 'a[-1]', 'a[x]', 'a[1:2]', 'a@key', 'a@size', '@key',
                        'a[:]@foo', 'a-b', 'a.b', 'count(a)', 'count(a[0])', 'count()', '%s', 'a[:][:]x', '&::', '&::1', '**'])


@prop('G06_rejects', 3000, 40000, 'the path has two or more valid segments around the bad one',
      segs=path_st(max_len=4, size=False), bits=st.integers(0, 255), at=st.integers(0, 5),
      bad=st.one_of(junk, st.just('COUNT')), trail=st.booleans())
def rejects(c, segs, bits, at, bad, trail):
  at = min(at, len(segs))
  parts = [canon(s) for s in segs]
  if bad == 'COUNT':
    at = min(at, len(segs) - 1)
    bad = 'count(a[:])'
  if bad.startswith('@') and at > 0:
    bad = 'x' + bad
  parts.insert(at, bad)
  text = '/'.join(parts)
  if at == 0 and bad == '' and not trail:
    text = '/' + text  # `//x`; one leading slash alone is fine
  elif at == 0 and bad == '':
    text = '/'.join(parts[1:]) + '/'
  c.nontrivial(len(segs) >= 2)
  c.key(text)
  for f in (Protopath.parse, Protopath.parse_wildcard):
    try:
      f(text)
    except ValueError:
      continue
    raise AssertionError(f'{f.__name__}({text!r}) was accepted')


@prop('G06_accessors', 2000, 30000, 'a repeated path or a size',
      segs=path_st(), bits=st.integers(0, 255), cpp_type=st.sampled_from([None, 'float', '::arolla::Text']),
      pol=st.sampled_from(sorted(protopath.default_name_modifiers)))
def accessor_kinds(c, segs, bits, cpp_type, pol):
  text = spell(segs, bits)
  p = Protopath.parse(text)
  groups, last = split_multi(segs)
  sized = segs[-1][0] in SIZE
  c.nontrivial(bool(groups) or sized)

  def outcome(f):
    try:
      return f()
    except ValueError as e:
      return e

  must = {cpp.Include('arolla/util/map.h'), cpp.Include('arolla/io/proto_types/types.h')}
  a = p.accessor(DENSE, cpp_type)
  assert a.protopath == text and a.default_name == name_of(segs)
  assert a.default_value_cpp is None
  assert must <= a.required_includes
  if groups or sized:
    assert set(DENSE.required_includes()) <= a.required_includes
  # the type asked for is the type recorded; sizes inside arrays have the size type
  if sized and not groups:
    assert a.cpp_type is None
  else:
    assert a.cpp_type == (cpp_type or ('::arolla::proto::arolla_size_t' if sized else None)), a.cpp_type
  head = a.lambda_str.split('{')[0]
  assert ('RawBufferFactory' in head) == bool(groups), head
  if groups:
    r = outcome(lambda: p.accessor(None, cpp_type))
    assert isinstance(r, ValueError), f'{text}: array accessor without array generator'
  elif not sized:
    # a scalar needs no array generator, and gets the same accessor without
    b = p.accessor(None, cpp_type)
    assert b == a
    d = p.scalar_accessor_with_default_value(cpp_type='float', default_value_cpp='5.5f')
    assert d.default_value_cpp == '5.5f' and d.cpp_type == 'float'
    assert d.default_name == a.default_name and d.protopath == text
    assert d.lambda_str.count('5.5f') == 1 and must <= d.required_includes
    assert not (d == a) and d != a
  if not last:
    assert isinstance(outcome(lambda: p.mutable_accessor(array_gen=DENSE)), ValueError)
  elif not any(s[0] in ('addr', 'keys') for s in segs) and not (
      sized and (segs[-1][0] == 'countorig')) and not any(s[0] == 'vals' for s in segs[-1:]):
    # sizes of maps cannot be set; the path text is of a repeated field here
    m = outcome(lambda: p.mutable_accessor(array_gen=DENSE, cpp_type=cpp_type))
    assert not isinstance(m, ValueError), f'{text}: {m}'
    assert m.protopath == text and m.default_name == name_of(segs)
    assert 'output_type_meta_fn' in m.lambda_str.split('{')[0]
    assert m != a
    if groups or (sized and not cpp_type):
      assert isinstance(outcome(lambda: p.mutable_accessor(cpp_type=None)), ValueError), text
  if any(s[0] == 'keys' for s in segs) and not any(s[0] == 'addr' for s in segs) and segs[-1][0] != 'countorig':
    r = outcome(lambda: p.mutable_accessor(array_gen=DENSE))
    assert isinstance(r, ValueError), f'{text}: mutable accessor through map keys'
  # policies
  n = name_of(segs)
  want = {
      'default': n, 'single_underscore': n[1:].replace('/', '_'),
      'double_underscore': n[1:].replace('/', '__'),
      'leaf_only': n if n.endswith('@size') else n.rsplit('/', 1)[-1],
  }[pol]
  assert protopath.default_name_modifiers[pol](a.default_name) == want


@prop('G01_typed_duplicates', 1500, 20000, 'same path, different type or default',
      segs=path_st(max_len=3, multi=False, size=False), t1=st.sampled_from([None, 'float', 'int32_t']),
      t2=st.sampled_from([None, 'float', 'int32_t']), d1=st.sampled_from([None, '1', '2']), d2=st.sampled_from([None, '1', '2']),
      flip=st.booleans())
def typed_duplicates(c, segs, t1, t2, d1, d2, flip):
  p = Protopath.parse(spell(segs, 0))

  def make(t, d):
    if d is None:
      return p.accessor(DENSE, t)
    return p.scalar_accessor_with_default_value(cpp_type=t or 'double', default_value_cpp=d)

  a, b = make(t1, d1), make(t2, d2)
  if flip:
    a, b = b, a
  k1, k2 = (t1 or ('double' if d1 else None), d1), (t2 or ('double' if d2 else None), d2)
  same = k1 == k2
  c.nontrivial(not same)
  assert (a == b) == same and (b == a) == same, f'{k1} {k2}'
  for first in ('', 'n'):
    lst = [(first, a), (first, b)]
    try:
      r = accessors.AccessorsList(lst)
    except ValueError as e:
      assert not same, e
      assert (first or name_of(segs)) in str(e)
    else:
      assert same, f'accessors {k1} and {k2} of one path were merged under one name'
      assert len(r) == 1


# ------------------------------------------------------------------ G07 -----


class Node:
  """The model of a path tree."""

  def __init__(self, seg, parent, leaf=None):
    self.seg, self.parent, self.kids, self.leaf = seg, parent, [], leaf
    self.fictive = False

  def post(self):
    return [x for k in self.kids for x in k.post()] + [self]

  def leaves(self):
    return [n for n in self.post() if n.leaf is not None]

  def path(self):
    n, r = self, []
    while n.parent is not None:
      if not n.fictive:
        r.append(n.seg)
      n = n.parent
    return tuple(reversed(r))


class Prefix(Exception):
  pass


def build(paths):
  root = Node(None, None)
  for i, segs in enumerate(paths):
    n = root
    for j, s in enumerate(segs):
      nxt = None
      if j + 1 < len(segs):
        for k in n.kids:
          # the last access to an extension is checked for presence, an inner
          # one is not: they are different elements
          if k.seg == s and not (s[0] == 'ext' and k.leaf is not None):
            nxt = k
            break
      if nxt is None:
        nxt = Node(s, n)
        n.kids.append(nxt)
      if nxt.leaf is not None:
        raise Prefix(segs)
      n = nxt
    n.leaf = i
  # split wide nodes
  for n in root.post():
    if len(n.kids) > 8:
      groups = []
      for at in range(0, len(n.kids), 8):
        f = Node(None, n)
        f.fictive = True
        f.kids = n.kids[at:at + 8]
        for k in f.kids:
          k.parent = f
        groups.append(f)
      n.kids = groups
  return root


@st.composite
def related_paths(draw, multi, max_size=24):
  """Paths that share beginnings; some wide nodes."""
  out = []
  pool = [()]
  wide = draw(st.integers(0, 3)) == 0
  n = draw(st.integers(1, max_size))
  for i in range(n):
    base = draw(st.sampled_from(pool))
    tail = []
    for _ in range(draw(st.integers(0, 2))):
      tail.append(draw(st.one_of(single_seg(), multi_seg()) if multi else single_seg()))
    pre = base + tuple(tail)
    pool.append(pre)
    if tail and draw(st.booleans()):
      pool.append(base + tuple(tail[:1]))
    if wide or draw(st.booleans()):
      end = ('field', draw(st.sampled_from('abcdefghijklmnopqrstuvwxyz')) + str(draw(st.integers(0, 3))))
    else:
      end = draw(st.one_of(single_seg(), st.tuples(st.just('count'), ident)))
    if multi and draw(st.integers(0, 3)) == 0:
      end = draw(multi_seg())
    segs = pre + (end,)
    if multi and draw(st.integers(0, 3)) and not any(s[0] in MULTI for s in segs):
      segs = (draw(st.sampled_from([('range', 'r'), ('range', 'q'), ('vals', 'm')])),) + segs
    out.append(segs)
    if draw(st.integers(0, 7)) == 0:
      out.append(segs)
  return out


def compare_tree(node, model, kind, leaf_of):
  """Same shape, same elements, same leaves."""
  assert node.is_fictive() == model.fictive, f'{model.path()}: fictive {node.is_fictive()}'
  assert node.is_leaf() == (model.leaf is not None), f'{model.path()}: leaf {node.is_leaf()}'
  want = '/'.join(canon(s) for s in model.path())
  assert node.protopath() == want, f'{node.protopath()} want {want}'
  if model.leaf is not None:
    assert node.leaf_accessor_name == leaf_of[model.leaf][0]
    assert node.leaf_accessor is leaf_of[model.leaf][1]
    assert node.is_size == (model.seg[0] in SIZE)
  else:
    assert node.leaf_accessor_name == '' and node.leaf_accessor is None
    assert not node.is_size
  assert len(node.children) == len(model.kids), (
      f'{want or "root"}: {len(node.children)} children want {len(model.kids)}')
  for a, b in zip(node.children, model.kids):
    assert a.parent is node, f'parent of {a.protopath()} is wrong'
    compare_tree(a, b, kind, leaf_of)


def check_numeration(root, model):
  nodes = root.post_order_nodes()
  mnodes = model.post()
  assert len(nodes) == len(set(map(id, nodes))) == len(mnodes)
  num = mp.create_node_numeration(root)
  assert [num.node2id[n] for n in nodes] == list(range(len(nodes))) and len(num.node2id) == len(nodes)
  leaves = [n for n, m in zip(nodes, mnodes) if m.leaf is not None]
  inner = [n for n, m in zip(nodes, mnodes) if m.leaf is None]
  assert [num.leaf2id[n] for n in leaves] == list(range(len(leaves))) and len(num.leaf2id) == len(leaves)
  assert [num.intermediate2id[n] for n in inner] == list(range(len(inner))) and len(num.intermediate2id) == len(inner)
  assert root.leaves() == leaves if model.kids else root.leaves() == []
  assert mp.size_leaf_ids(root, num) == [i for i, m in enumerate(model.leaves()) if m.seg[0] in SIZE]
  # the C++ text builds exactly this tree
  text = mp.define_protopath_tree(root, num)
  m = re.search(r'tree\((\d+)\)', text)
  assert int(m.group(1)) == len(nodes), text
  tree = [[] for _ in nodes]
  for i, kids in re.findall(r'tree\[(\d+)\]\s*=\s*\{([^}]*)\};', text):
    assert not tree[int(i)]
    tree[int(i)] = [int(k) for k in kids.split(',') if k.strip()]
  ids = {id(m): i for i, m in enumerate(mnodes)}
  assert tree == [[ids[id(k)] for k in m.kids] for m in mnodes], text
  for n, m in zip(nodes, mnodes):
    assert n.depth_without_fictive() == len(m.path())
    a = m
    while a.fictive:
      a = a.parent
    assert n.non_fictive_ancestor() is nodes[ids[id(a)]]
    cm = n.comment
    if m.leaf is not None:
      assert cm == f'protopath=`{n.protopath()}` name=`{n.leaf_accessor_name}`', cm
    else:
      assert cm == f'protopath=`{n.protopath() or "ROOT"}`' + (' fictive' if m.fictive else ''), cm
    assert n.leaves() == [x for x, y in zip(nodes, mnodes) if y.leaf is not None and (y is m or _below(y, m))]
  chosen = set(nodes[::3])
  d = {n: i % 2 for i, n in enumerate(nodes) if i % 4}
  for n in nodes:
    assert n.count_children_in_set(chosen) == len([k for k in n.children if k in chosen])
    for v in (0, 1):
      assert n.count_children_in_dict(d, v) == len([k for k in n.children if d.get(k, None) == v])
  return nodes, mnodes, num


def _below(y, m):
  while y is not None:
    if y is m:
      return True
    y = y.parent
  return False


def make_accessors(paths, rnd, defaults):
  lst = []
  for i, segs in enumerate(paths):
    p = Protopath.parse(spell(segs, rnd + i))
    if defaults and not split_multi(segs)[0] and segs[-1][0] not in SIZE and (i * 7 + rnd) % 3 == 0:
      a = p.scalar_accessor_with_default_value(cpp_type='float', default_value_cpp='1.5f')
    else:
      a = p.accessor(DENSE)
    lst.append(('' if (i + rnd) % 2 else f'n{i}', a))
  return lst


def others(i):
  return (f'other{i}', accessors.Accessor(f'[](const auto& i) {{ return i.f{i}; }}', [cpp.Include('o.h')]))


@prop('G07_single_tree', 900, 15000, 'a shared beginning, and a leaf of each kind or a wide node',
      paths=related_paths(False), foreign=st.lists(path_st(max_len=3, min_multi=1, size=False), max_size=4),
      rnd=st.integers(0, 63), at=st.integers(0, 20), nother=st.integers(0, 3))
def single_tree(c, paths, foreign, rnd, at, nother):
  c.key((paths, foreign, rnd))
  mine = make_accessors(paths, rnd, True)
  rest = [(f'f{i}', Protopath.parse(spell(s, rnd)).accessor(DENSE)) for i, s in enumerate(foreign)]
  rest += [others(i) for i in range(nother)]
  # interleave without changing the relative order of either
  at = min(at, len(mine))
  lst = mine[:at] + rest + mine[at:]
  before = list(lst)
  try:
    model = build(paths)
  except Prefix:
    c.label('prefix')
    try:
      mp.extract_single_value_protopath_accessors(lst)
    except ValueError as e:
      assert 'prefix' in str(e)
      return
    raise AssertionError('a path that is a prefix of a later one was accepted')
  left, root = mp.extract_single_value_protopath_accessors(lst)
  assert lst == before
  assert len(left) == len(rest) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(left, rest)), 'accessors lost or reordered'
  leaf_of = [(n or a.default_name, a) for n, a in mine]
  compare_tree(root, model, 'single', leaf_of)
  nodes, mnodes, _ = check_numeration(root, model)
  c.nontrivial(len(mnodes) < sum(map(len, paths)) + 1 and (len({s[-1][0] for s in paths}) > 1 or any(m.fictive for m in mnodes)))
  c.label('wide' if any(m.fictive for m in mnodes) else 'narrow')
  for n, m in zip(nodes, mnodes):
    assert len(n.children) <= 8
    ls = [leaf_of[l.leaf][1] for l in m.leaves() if l.seg[0] not in SIZE]
    assert n.has_size_leaf() == any(l.seg[0] in SIZE for l in m.leaves())
    assert n.has_optional_leaf() == any(a.default_value_cpp is None for a in ls)
    assert n.has_leaf_with_default_value() == any(a.default_value_cpp is not None for a in ls)
    incs = set()
    for l in m.leaves():
      incs |= leaf_of[l.leaf][1].required_includes
    if m.leaves():
      incs.add(cpp.Include('arolla/codegen/io/multi_loader.h'))
    if n.has_size_leaf():
      incs.add(cpp.Include('arolla/dense_array/qtype/types.h'))
    assert n.required_includes == incs
  # expression used to deduce the type: one access per segment, outermost first
  for n, m in zip(nodes, mnodes):
    e = n.access_for_type('input')
    want = 'input'
    for el in Protopath.parse('/'.join(canon(s) for s in m.path())).last_path_list if m.path() else ():
      want = el.access(want)
    assert e == want, f'{e} want {want}'


@prop('G07_multi_tree', 900, 15000, 'a shared beginning with a repeated part, or a wide node',
      paths=related_paths(True), rnd=st.integers(0, 63), nother=st.integers(0, 3), at=st.integers(0, 20))
def multi_tree(c, paths, rnd, nother, at):
  c.key((paths, rnd))
  acc = make_accessors(paths, rnd, False)
  rest = [others(i) for i in range(nother)]
  at = min(at, len(acc))
  lst = acc[:at] + rest + acc[at:]
  mine = [(p, a) for p, a in zip(paths, acc) if split_multi(p)[0]]
  want_left = [x for x in lst if not any(x[1] is a[1] for _, a in mine)]
  try:
    model = build([p for p, _ in mine])
  except Prefix:
    c.label('prefix')
    try:
      mp.extract_multi_value_protopath_accessors(lst)
    except ValueError as e:
      assert 'prefix' in str(e)
      return
    raise AssertionError('a path that is a prefix of a later one was accepted')
  left, root = mp.extract_multi_value_protopath_accessors(lst)
  assert len(left) == len(want_left) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(left, want_left))
  leaf_of = [(a[0] or a[1].default_name, a[1]) for _, a in mine]
  compare_tree(root, model, 'multi', leaf_of)
  nodes, mnodes, _ = check_numeration(root, model)
  c.nontrivial(len(mnodes) < sum(len(p) for p, _ in mine) + 1)
  c.label('wide' if any(m.fictive for m in mnodes) else 'narrow')
  for n, m in zip(nodes, mnodes):
    path = m.path()
    depth = sum(s[0] in MULTI for s in path)
    assert n.repeated_depth() == depth and n.is_repeated() == (depth > 0)
    if depth:
      a = m
      while a.fictive or a.seg[0] not in MULTI:
        a = a.parent
      got = n.repeated_access_ancestor()
      assert nodes[mnodes.index(a)] is got
      # presence after the first repeated access
      first = next(i for i, s in enumerate(path) if s[0] in MULTI)
      tail = [s for s in path[first + 1:] if s[0] not in MULTI]
      final = m.leaf is not None and path[-1][0] == 'ext'

      for mut in (False, True):
        def passes(i, s):
          if s[0] in ('struct', 'addr') or s[0] in SIZE:
            return True
          if s[0] in ('field', 'key', 'wild'):
            return mut
          if s[0] == 'ext':
            return mut or not (final and i == len(tail) - 1)
          return False
        want = all(passes(i, s) for i, s in enumerate(tail))
        assert n.is_repeated_always_present(is_mutable=mut) == want, f'{path} mutable={mut}'
    anc = m
    chain = []
    while anc is not None:
      chain.append(nodes[mnodes.index(anc)])
      anc = anc.parent
    for k in nodes:
      assert k.is_ancestor_of(n) == any(k is x for x in chain)
    for i, k in enumerate(chain):
      assert n.path_from_ancestor(k) == list(reversed(chain[:i + 1]))
  # a default value is not possible in an array
  d = Protopath.parse('aa/bb').scalar_accessor_with_default_value(cpp_type='int', default_value_cpp='1')
  try:
    mp.extract_multi_value_protopath_accessors(lst + [('d', d)])
  except NotImplementedError:
    pass
  else:
    raise AssertionError('default in a multi value accessor accepted')


# ------------------------------------------------------------------ G08 -----

VALUES = mp.IntermediateCollectionInfo.COLLECT_VALUES
SIZES = mp.IntermediateCollectionInfo.COLLECT_PARENT_VALUES_AND_SIZES
COST = {'field': .4, 'struct': .4, 'deref': .4, 'addr': .4, 'idx': .5, 'key': None, 'wild': None, 'ext': 2.0, 'count': .4}


def real(m):
  while m.fictive:
    m = m.parent
  return m


def up_to_branch(m):
  if m.parent is None:
    return m
  m = m.parent
  while m.parent is not None and len(m.kids) < 2:
    m = m.parent
  return m


def last_loop(m):
  while m.fictive or m.seg[0] not in MULTI:
    m = m.parent
  return m


@prop('G08_plan', 2500, 40000, 'leaves start from two different intermediate nodes',
      paths=related_paths(True), rnd=st.integers(0, 63))
def plan(c, paths, rnd):
  paths = [p for p in paths if split_multi(p)[0]]
  assume(paths)
  c.key(paths)
  try:
    model = build(paths)
  except Prefix:
    assume(False)
  acc = make_accessors(paths, rnd, False)
  _, root = mp.extract_multi_value_protopath_accessors(acc)
  nodes, mnodes = root.post_order_nodes(), model.post()
  of = {id(n): m for n, m in zip(nodes, mnodes)}
  to = {id(m): n for n, m in zip(nodes, mnodes)}
  need = {}
  for n, m in zip(nodes, mnodes):
    if m.leaf is None:
      continue
    start, kind = n.intermediate_start_node()
    s = of[id(start)]
    loop = last_loop(m)
    c.note(f'{n.protopath()}: {start.protopath()} {kind.name}')
    # from the start to the leaf there is no loop left, so sizes are the same
    assert not s.fictive, f'{n.protopath()} starts at a fictive node'
    assert _below(m, s), f'{n.protopath()} starts elsewhere, at {start.protopath()}'
    branch = real(up_to_branch(m))
    if _below(branch, loop):
      assert kind == VALUES, f'{n.protopath()}: sizes collected although {start.protopath()} is inside the loop'
      assert _below(s, loop), f'{n.protopath()} starts outside its last loop, at {start.protopath()}'
      # either the nearest branching ancestor, or the next one, whichever is
      # estimated cheaper
      nxt = real(up_to_branch(branch))
      if _below(loop, nxt):
        nxt = loop
      cost = 0.
      x = branch
      while x is not nxt:
        if not x.fictive:
          cost += to[id(x)].path_from_parent_single.access_cost()
        x = x.parent
      extra = cost * (len(branch.leaves()) - 1)
      if abs(extra - mp.INTERMEDIATE_RESULT_COLLECTION_COST) > 1e-6:
        want = nxt if extra < mp.INTERMEDIATE_RESULT_COLLECTION_COST else branch
        assert s is want, f'{n.protopath()} starts at {start.protopath()} want {to[id(want)].protopath()}'
      need[id(s)] = VALUES
    else:
      assert kind == SIZES, f'{n.protopath()}'
      assert s is loop, f'{n.protopath()} starts at {start.protopath()}'
      outer = real(loop.parent)
      need[id(outer)] = VALUES
      if any(x[0] in MULTI for x in outer.path()):
        need.setdefault(id(loop), SIZES)
  need.pop(id(model), None)
  c.nontrivial(len(need) > 1)
  c.label('sizes' if SIZES in need.values() else 'values only')
  got = mp.nodes_for_intermediate_collection(root)
  want = [(n, need[id(m)]) for n, m in zip(nodes, mnodes) if id(m) in need]
  assert list(got.items()) == want, (
      f'plan {[(k.protopath(), v.name) for k, v in got.items()]} want {[(k.protopath(), v.name) for k, v in want]}')
  withd = mp.nodes_with_descendant_for_intermediate_collection(root, got)
  for n, m in zip(nodes, mnodes):
    below = [got[to[id(x)]] for x in m.post() if to[id(x)] in got]
    if not below:
      assert n not in withd, f'{n.protopath()} has nothing to collect below'
    else:
      w = VALUES if VALUES in below else SIZES
      assert withd.get(n) == w, f'{n.protopath()}: {withd.get(n)} want {w}'
  # the plan can be executed: what a node needs is collected at the nearest
  # collected ancestor inside the loop, and never after it
  order = list(got)
  for i, k in enumerate(order):
    for l in order[:i]:
      assert not (l.is_ancestor_of(k)), 'a node is listed before its descendant'


@prop('G08_costs', 1500, 15000, 'two or more segments below the ancestor',
      segs=st.lists(single_seg(), min_size=1, max_size=6), up=st.integers(0, 6))
def costs(c, segs, up):
  paths = [(('range', 'r'),) + tuple(segs)]
  _, root = mp.extract_multi_value_protopath_accessors(make_accessors(paths, 0, False))
  chain = []
  n = root.leaves()[0]
  while n.parent is not None:
    chain.append(n)
    n = n.parent
  leaf = chain[0]
  up = min(up, len(segs))
  c.nontrivial(up > 1)
  els = leaf.leaf_accessor and Protopath.parse(leaf.leaf_accessor.protopath).last_path_list
  want = sum(e.access_cost() for e in els[len(els) - up:]) if up else 0
  got = leaf.access_cost(chain[up])
  assert abs(got - want) < 1e-9, f'{got} want {want}'
  assert all(e.access_cost() > 0 for e in els)
  try:
    leaf.access_cost(root)
  except ValueError:
    pass
  else:
    raise AssertionError('cost across a loop')


# ------------------------------------------------------------------ G09 -----

F = descriptor_pb2.FieldDescriptorProto
SCALARS = [F.TYPE_INT32, F.TYPE_INT64, F.TYPE_FLOAT, F.TYPE_DOUBLE, F.TYPE_BOOL, F.TYPE_STRING, F.TYPE_BYTES, F.TYPE_UINT32]
KIND_ENUM = F.TYPE_ENUM
_counter = [0]


@st.composite
def schema(draw):
  """A description of messages: list of (name, fields, extensions)."""
  nmsg = draw(st.sampled_from([3, 2, 4, 5, 1]))
  msgs = []
  for i in range(nmsg):
    fields = []
    for j in range(draw(st.sampled_from([3, 2, 4, 5, 1, 0]))):
      kind = draw(st.sampled_from(['msg', 'scalar', 'scalar', 'msg', 'map', 'enum']))
      rep = draw(st.sampled_from([True, False, False]))
      target = (i + draw(st.integers(1, nmsg))) % nmsg
      t = draw(st.sampled_from(SCALARS))
      fields.append((draw(st.sampled_from(['a', 'b', 'c', 'x', 'Y', 'long_name', 'id'])) + str(j), kind, rep, target, t))
    msgs.append(fields)
  exts = []
  for j in range(draw(st.integers(0, 5))):
    exts.append((f'e{j}', draw(st.sampled_from(['scalar', 'msg'])), draw(st.integers(0, 3)) == 0,
                 draw(st.integers(0, nmsg - 1)), draw(st.sampled_from(SCALARS)),
                 draw(st.integers(0, nmsg - 1)), draw(st.integers(-1, nmsg - 1))))
  nest = [draw(st.integers(-1, i - 1)) if i else -1 for i in range(nmsg)]
  return msgs, exts, nest


def build_pool(sch):
  msgs, exts, nest = sch
  fd = descriptor_pb2.FileDescriptorProto(name='f.proto', package='pk', syntax='proto2')
  holders, full = [], []
  for i, parent in enumerate(nest):
    if parent < 0:
      m = fd.message_type.add()
      full.append(f'pk.M{i}')
    else:
      m = holders[parent].nested_type.add()
      full.append(f'{full[parent]}.M{i}')
    m.name = f'M{i}'
    holders.append(m)
  for i, fields in enumerate(msgs):
    m = holders[i]
    m.extension_range.add(start=1000, end=2000)
    if any(f[1] == 'enum' for f in fields):
      e = m.enum_type.add(name='E')
      e.value.add(name=f'V{i}', number=0)
    for j, (n, kind, rep, target, t) in enumerate(fields):
      f = m.field.add(name=n, number=j + 1)
      f.label = F.LABEL_REPEATED if rep or kind == 'map' else F.LABEL_OPTIONAL
      if kind == 'scalar':
        f.type = t
      elif kind == 'enum':
        f.type = F.TYPE_ENUM
        f.type_name = f'.{full[i]}.E'
      elif kind == 'msg':
        f.type = F.TYPE_MESSAGE
        f.type_name = '.' + full[target]
      else:
        f.type = F.TYPE_MESSAGE
        entry = m.nested_type.add(name=''.join(p.capitalize() for p in n.split('_')) + 'Entry')
        entry.options.map_entry = True
        entry.field.add(name='key', number=1, label=F.LABEL_OPTIONAL, type=F.TYPE_STRING)
        entry.field.add(name='value', number=2, label=F.LABEL_OPTIONAL, type=F.TYPE_INT32)
        f.type_name = f'.{full[i]}.{entry.name}'
  names = []
  for j, (n, kind, rep, target, t, extendee, scope) in enumerate(exts):
    host = fd if scope < 0 else holders[scope]
    f = host.extension.add(name=n, number=1000 + j, extendee='.' + full[extendee])
    f.label = F.LABEL_REPEATED if rep else F.LABEL_OPTIONAL
    if kind == 'scalar':
      f.type = t
    else:
      f.type = F.TYPE_MESSAGE
      f.type_name = '.' + full[target]
    names.append(('pk' if scope < 0 else full[scope]) + '.' + n)
  pool = descriptor_pool.DescriptorPool()
  pool.Add(fd)
  return pool, full, names


def expected(sch, full, extnames, start, use_ext, array, mutable, skip, prefix, text_type):
  """(path text, wanted type or None, is size) for every field reachable."""
  msgs, exts, _ = sch
  out = []

  def visit(i, pre, seen):
    seen = seen | {i}
    # fields in order of declaration, then extensions
    todo = [('f', f) for f in msgs[i]]
    if use_ext:
      todo += [('e', (extnames[j], *e[1:5])) for j, e in enumerate(exts) if e[5] == i]
    for tag, (n, kind, rep, target, t) in todo:
      short = n.rsplit('.', 1)[-1]
      if short in skip or kind == 'map':
        continue
      if rep and (not array or tag == 'e'):
        continue
      el = ('Ext::' + n) if tag == 'e' else n + ('[:]' if rep else '')
      join = lambda x: f'{pre}/{x}' if pre else x  # pylint: disable=cell-var-from-loop
      if rep and (not mutable or kind == 'msg'):
        out.append((join(f'count({el})'), None, True))
      if kind == 'msg':
        if target not in seen:
          visit(target, join(el), seen)
        continue
      if mutable and rep:
        continue
      out.append((join(el), text_type if t == F.TYPE_STRING and kind == 'scalar' else None, False))

  visit(start, prefix, frozenset())
  return out


@prop('G09_descriptor', 3000, 12000, 'a nested message and a repeated field or an extension are reached',
      sch=schema(), start=st.integers(0, 4), use_ext=st.sampled_from([True, True, False]), array=st.sampled_from([True, True, True, False]), mutable=st.booleans(),
      skip=st.lists(st.sampled_from(['a0', 'a1', 'b0', 'x0', 'c1', 'e0']), max_size=3),
      prefix=st.sampled_from([None, None, 'pre', 'pre/q[0]', 'rr[:]']), text=st.sampled_from(['::arolla::Text', '::my::T']),
      pol=st.sampled_from(sorted(protopath.default_name_modifiers)))
def descriptor(c, sch, start, use_ext, array, mutable, skip, prefix, text, pol):
  start %= len(sch[0])
  pool, full, extnames = build_pool(sch)
  d = pool.FindMessageTypeByName(full[start])
  fdescr = pool.FindFileByName('f.proto')
  t2e = protopath.collect_extensions_per_containing_type([fdescr])
  got = {k: sorted(e.full_name for e in v) for k, v in t2e.items()}
  want = {}
  for j, e in enumerate(sch[1]):
    want.setdefault(full[e[5]], []).append(extnames[j])
  assert got == {k: sorted(v) for k, v in want.items()}, f'{got} want {want}'
  if not array and prefix == 'rr[:]':
    prefix = None
  exp = expected(sch, full, extnames, start, use_ext, array, mutable, set(skip), prefix, text)
  mod = protopath.default_name_modifiers[pol]
  kw = {}
  if use_ext:
    kw['type2extensions'] = t2e
  if skip:
    kw['skip_field_fn'] = lambda f: f.name in skip
  names = [mod(Protopath.parse(p).default_name) for p, _, _ in exp]
  c.key((full[start], exp, mutable, pol, array, text))
  c.nontrivial(any('/' in p for p, _, _ in exp) and any(']' in p or 'Ext' in p for p, _, _ in exp))
  c.label(f'{min(len(exp), 20) // 5 * 5}+ accessors')
  if len(set(names)) != len(names):
    c.label('colliding names')
    return  # rejected later, by the accessor list
  res = protopath.accessors_from_descriptor(
      d, DENSE if array else None, accessor_input_type='::pk::T', default_name_modifier_fn=mod,
      text_cpp_type=text, mutable=mutable, protopath_prefix=prefix, **kw)
  assert [n for n, _ in res] == sorted(names), (
      f'names {[n for n, _ in res]} want {sorted(names)}')
  by = dict(zip(names, exp))
  for n, a in res:
    p, t, size = by[n]
    assert a.protopath == p, f'{n}: {a.protopath} want {p}'
    pp = Protopath.parse(p, input_type='::pk::T')
    ref = (pp.mutable_accessor(array_gen=DENSE, cpp_type=t) if mutable else pp.accessor(DENSE, cpp_type=t))
    assert a == ref and a.cpp_type == ref.cpp_type, f'{n}: accessor differs from the one of its path: {a.cpp_type}'
    if not mutable:
      assert 'const ::pk::T& input' in a.lambda_str


@prop('G09_import', 120, 200, 'the name is valid',
      mod=st.sampled_from(['arolla.proto.io', 'arolla.proto.io', 'arolla.proto.nope', 'nope', 'arolla.proto.accessors']),
      cls=st.sampled_from(['Nope', 'A.B', '']), pick=st.integers(0, 3))
def import_class(c, mod, cls, pick):
  import importlib  # pylint: disable=g-import-not-at-top
  try:
    m = importlib.import_module(mod + '_pb2')
    known = sorted(m.DESCRIPTOR.message_types_by_name)
  except ModuleNotFoundError:
    m, known = None, []
  full = None
  if known and pick:
    full = known[pick % len(known)]
    d = m.DESCRIPTOR.message_types_by_name[full]
    if pick > 1 and d.nested_types:
      full += '.' + d.nested_types[0].name
  name = full or cls
  c.nontrivial(full is not None)
  c.key((mod, name))
  try:
    r = protopath.import_proto_class(f'{mod}_pb2.{name}')
  except ValueError:
    assert full is None, f'{mod}_pb2.{name} not found'
    return
  assert full is not None, f'{mod}_pb2.{name} found: {r}'
  assert r.DESCRIPTOR.full_name.endswith(name), r
