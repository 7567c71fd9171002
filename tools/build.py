"""Builds harnesses from /repo's current working tree.

Objects are always rebuilt (through ccache, whose keys are file contents), so a
check never trusts timestamps: a changed file in /repo is always recompiled.
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
JOBS = os.cpu_count() or 8

ABSL_SO = sorted(
    p
    for p in glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so')
    if 'flags_parse' not in p
)

COMMON = (
    '-std=gnu++20 -w -include {v}/shim/prefix.h -I{v}/shim -I{r} -I{gen}'
    ' -I{v}/lib -DAROLLA_SHARED_COMPILATION -DAROLLA_IMPLEMENTATION'
    ' -DABSL_DEFINE_UNQUALIFIED_STATUS_MACROS -fno-caret-diagnostics'
)

VARIANTS = {
    # name: (compile flags, link flags)
    'eng': ('-O1 -g0 -fPIC', ''),
    # sanitized, for the small parts
    'san': (
        '-O1 -gline-tables-only -fno-omit-frame-pointer'
        ' -fsanitize=address,undefined -fno-sanitize-recover=undefined'
        ' -fno-sanitize=vptr,function,nonnull-attribute,pointer-overflow',
        '-fsanitize=address,undefined',
    ),
    'tsan': ('-I{v}/shim_tsan -O1 -gline-tables-only -fsanitize=thread', '-fsanitize=thread'),
    'opt': ('-O2 -g0 -fPIC', ''),
    'plain': ('-O1 -g0', ''),
}


def env():
  e = dict(os.environ)
  e['CCACHE_DIR'] = os.environ.get('VERIF_CCACHE', os.path.join(BUILD, 'ccache'))
  e['CCACHE_COMPILERCHECK'] = 'content'
  e['CCACHE_MAXSIZE'] = '2G'
  e['CCACHE_NOHASHDIR'] = '1'
  e['CCACHE_DEPEND'] = ''
  e.pop('CCACHE_DEPEND')
  for k in ('CXXFLAGS', 'CFLAGS', 'LDFLAGS', 'CPLUS_INCLUDE_PATH'):
    e.pop(k, None)
  return e


def run(cmd, **kw):
  r = subprocess.run(
      cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), **kw
  )
  if r.returncode:
    out = r.stdout.decode('utf8', 'replace')
    errs = [l[:600] for l in out.splitlines() if 'error' in l and 'ccache' not in l]
    _LAST[0] = '\n'.join(errs[:12] or [out[-2000:]])
    sys.stderr.write('\n'.join(errs[:40] or [out[-4000:]]) + '\n')
    raise RuntimeError(f'command failed ({r.returncode}): {str(cmd)[:300]}')
  return r.stdout.decode('utf8', 'replace')


def gen_protos(out):
  """Runs protoc over every proto of arolla; returns the list of .pb.cc."""
  shutil.rmtree(out, ignore_errors=True)
  os.makedirs(out)
  protos = []
  for root, dirs, files in os.walk(os.path.join(REPO, 'arolla')):
    dirs.sort()
    for f in sorted(files):
      if f.endswith('.proto'):
        protos.append(os.path.relpath(os.path.join(root, f), REPO))
  run(
      ['protoc', '-I.', '-I/usr/include', '--cpp_out=' + out,
       '--python_out=' + out] + protos,
      cwd=REPO,
  )
  ccs = []
  for root, _, files in os.walk(out):
    for f in sorted(files):
      p = os.path.join(root, f)
      if f.endswith('.pb.h'):
        s = open(p, encoding='utf8').read()
        s = s.replace(
            'static_cast<ArgT0 &&>(arg0), args',
            '::shim_pb::PbStr(static_cast<ArgT0 &&>(arg0)), args',
        )
        open(p, 'w', encoding='utf8').write(s)
      elif f.endswith('.pb.cc'):
        ccs.append(p)
  return sorted(ccs)


EXCLUDE = (
    '_test.cc', '_benchmark.cc', 'benchmarks.cc', '_benchmarks.cc',
    '_test_gen.cc', '/main.cc', '_main.cc',
)


def engine_sources():
  srcs = []
  for root, dirs, files in os.walk(os.path.join(REPO, 'arolla')):
    dirs.sort()
    rel = os.path.relpath(root, REPO)
    for f in sorted(files):
      if not f.endswith('.cc'):
        continue
      p = os.path.join(rel, f)
      if p.endswith(EXCLUDE) or 'riegeli' in p or '/testing/' in p or '/demo/' in p or '/examples/' in p:
        continue
      srcs.append(p)
  return srcs


def closure(files, extra=()):
  """Repository sources (and .pb.cc) reachable from `files` through includes.

  X.h brings X.cc. Files with registration side effects only must be named.
  """
  srcs, seen = set(), set()
  todo = list(files) + [os.path.join(REPO, x) for x in extra]
  while todo:
    f = todo.pop()
    if f in seen or not os.path.exists(f):
      continue
    seen.add(f)
    rel = os.path.relpath(f, REPO)
    if f.endswith('.cc') and not rel.startswith('..'):
      srcs.add(rel)
    text = open(f, encoding='utf8').read()
    for m in re.findall(r'^#include "([^"]+)"', text, re.M):
      todo.append(os.path.join(os.path.dirname(f), m))  # our own headers
    for m in re.findall(r'^#include "((?:py/)?arolla/[^"]+)"', text, re.M):
      if m.endswith('.pb.h'):
        srcs.add(m[:-2] + 'cc')
        continue
      todo.append(os.path.join(REPO, m))
      if m.endswith('.h'):
        todo.append(os.path.join(REPO, m[:-2] + '.cc'))
  return sorted(srcs)


class Ninja:

  def __init__(self, d, gen, variant):
    self.dir = d
    os.makedirs(d, exist_ok=True)
    self.lines = []
    cf, lf = VARIANTS[variant]
    self.lines.append(
        f"""cxx = ccache clang++-18
flags = {cf.format(v=VERIF)} {COMMON.format(v=VERIF, r=REPO, gen=gen)}
lflags = {lf}
libs = {' '.join(ABSL_SO)} -lprotobuf -licuuc -licudata -lpcre2-8 -lpthread -ldl
rule cc
  command = $cxx $flags $extra -c $in -o $out
rule ar
  command = rm -f $out && ar rcsD $out @$out.rsp
  rspfile = $out.rsp
  rspfile_content = $in
rule so
  command = clang++-18 -shared -fuse-ld=lld -o $out @$out.rsp $lflags $libs
  rspfile = $out.rsp
  rspfile_content = $in
rule exe
  command = clang++-18 -fuse-ld=lld -o $out $in $lflags $exlibs $libs
"""
    )
    self.n = 0

  def cc(self, src, out, extra='', order=''):
    self.lines.append(f'build {out}: cc {src}{order}\n  extra = {extra}\n')
    return out

  def rule(self, name, out, ins, implicit=(), **vars_):
    imp = (' | ' + ' '.join(implicit)) if implicit else ''
    self.lines.append(
        f'build {out}: {name} {" ".join(ins)}{imp}\n'
        + ''.join(f'  {k} = {v}\n' for k, v in vars_.items())
    )
    return out

  def build(self, targets, timeout=None):
    with open(os.path.join(self.dir, 'build.ninja'), 'w') as f:
      f.write('\n'.join(self.lines))
    run(['ninja', '-C', self.dir, '-j', str(JOBS)] + list(targets), timeout=timeout)


class lock:

  def __init__(self, name):
    os.makedirs(BUILD, exist_ok=True)
    self.path = os.path.join(BUILD, name + '.lock')

  def __enter__(self):
    self.f = open(self.path, 'w')
    fcntl.flock(self.f, fcntl.LOCK_EX)

  def __exit__(self, *a):
    self.f.close()


class GeneratedCodeError(Exception):
  """The code generator failed on a valid specification, or produced code that
  does not compile although everything it depends on does."""

  def __init__(self, stage, message, plan):
    super().__init__(message)
    self.stage, self.message, self.plan = stage, message, plan


def build_e2e(name, plan, seed, variant='san', env_py=None, py='python3'):
  """Generates loaders/listeners from random specs and builds them all."""
  with lock('build'):
    gen = os.path.join(BUILD, 'gen')
    gen_protos(gen)
    hd = os.path.join(VERIF, 'harness', 'e2e')
    out = os.path.join(BUILD, 'e2e', name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    run(['protoc', '-I.', '--cpp_out=' + out, '--python_out=' + out,
         'e2e.proto', 'e2e3.proto'], cwd=hd)
    for f in ('e2e.pb.h', 'e2e3.pb.h'):
      p = os.path.join(out, f)
      t = open(p, encoding='utf8').read().replace(
          'static_cast<ArgT0 &&>(arg0), args',
          '::shim_pb::PbStr(static_cast<ArgT0 &&>(arg0)), args')
      open(p, 'w', encoding='utf8').write(t)
    e = dict(env_py)
    e['PYTHONPATH'] = e['PYTHONPATH'] + ':' + out

    def generate(pl):
      return subprocess.run(
          [py, os.path.join(hd, 'gen.py'), str(seed), out, json.dumps(pl)],
          env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    def solo(i):
      return [k if j == i else None for j, k in enumerate(plan)]

    r = generate(plan)
    if r.returncode:
      for i in range(len(plan)):
        r1 = generate(solo(i))
        if r1.returncode:
          raise GeneratedCodeError(
              'generate', r1.stdout.decode('utf8', 'replace')[-1500:], solo(i))
      raise GeneratedCodeError(
          'generate', r.stdout.decode('utf8', 'replace')[-1500:], plan)
    spec = json.load(open(os.path.join(out, 'spec.json')))
    files = [os.path.join(out, f) for f in spec['files']]
    heads = [os.path.join(out, g['hdr']) for g in spec['groups']]
    srcs = closure(
        files + heads + [os.path.join(hd, 'driver.cc'), os.path.join(hd, 'driver.h')])
    d = os.path.join(BUILD, 'obj-e2e-' + name)
    bindir = os.path.join(BUILD, 'bin')
    os.makedirs(bindir, exist_ok=True)
    shutil.rmtree(d, ignore_errors=True)
    nj = Ninja(d, gen, variant)
    inc = f'-I{out} -I{hd}'
    base = [nj.cc(f'{VERIF}/lib/pbt.cc', 'pbt.o'),
            nj.cc(os.path.join(hd, 'driver.cc'), 'driver.o', inc)]
    for f in ('e2e.pb.cc', 'e2e3.pb.cc'):
      base.append(nj.cc(os.path.join(out, f), f + '.o', inc))
    for s in srcs:
      if s.endswith('.pb.cc'):
        base.append(nj.cc(os.path.join(gen, s), 'p/' + s + '.o'))
      else:
        base.append(nj.cc(f'{REPO}/{s}', 'e/' + s + '.o'))
    gobjs = []
    for f in files + [os.path.join(out, 'table.cc')]:
      gobjs.append(nj.cc(f, os.path.basename(f) + '.o', inc))
    exe = os.path.join(bindir, f'e2e_{name}.{variant}')
    nj.rule('exe', exe, base + gobjs, exlibs='')
    nj.build(base)
    try:
      nj.build(gobjs)
      nj.build([exe])
    except RuntimeError:
      # Which group?
      for i, g in enumerate(spec['groups']):
        try:
          nj.build([f + '.o' for f in g['files']])
        except RuntimeError:
          idx = int(re.match(r'g(\d+)_', g['hdr']).group(1))
          raise GeneratedCodeError('compile', last_errors(), solo(idx)) from None
      raise GeneratedCodeError('compile', last_errors(), plan) from None
    shutil.rmtree(d, ignore_errors=True)
    return exe


_LAST = ['']


def last_errors():
  return _LAST[0]


def warm(comps):
  """Compiles what several calls of build() need at once, into the cache."""
  with lock('build'):
    gen = os.path.join(BUILD, 'gen')
    pbs = gen_protos(gen)
    for variant in sorted({c['variant'] for c in comps}):
      d = os.path.join(BUILD, 'obj-' + variant)
      shutil.rmtree(d, ignore_errors=True)
      nj = Ninja(d, gen, variant)
      outs = {}

      def add(src, out, extra=''):
        if (src, extra) not in outs:
          outs[src, extra] = nj.cc(src, f'w{len(outs)}_{os.path.basename(out)}.o', extra)

      heavy = []
      for c in comps:
        if c['variant'] != variant:
          continue
        heavy.append((f"{VERIF}/harness/{c['harness']}.cc", c['defines']))
        for x in c['extra_srcs']:
          heavy.append((x, ''))
      for src, extra in heavy:
        add(src, src, extra)
      add(f'{VERIF}/lib/pbt.cc', 'pbt')
      for c in comps:
        if c['variant'] != variant:
          continue
        rs = c['repo_srcs']
        if rs and rs[0] == 'closure':
          rs = closure([f"{VERIF}/harness/{c['harness']}.cc"] + list(c['extra_srcs']), rs[1:])
        if rs is None:
          if c['genops']:
            sys.path.insert(0, os.path.join(VERIF, 'tools'))
            import genops as g
            for x in g.generate(os.path.join(BUILD, 'genops')):
              add(x, x, '-O0')
          for x in engine_sources():
            add(f'{REPO}/{x}', x)
          for x in pbs:
            add(x, x)
        else:
          for x in rs:
            add(os.path.join(gen, x) if x.endswith('.pb.cc') else f'{REPO}/{x}', x)
      try:
        nj.build(['-k', '0'] + list(outs.values()))
      except RuntimeError as e:
        print('warm: ', str(e)[:300])
      shutil.rmtree(d, ignore_errors=True)


def build(harness, variant, repo_srcs=None, extra_srcs=(), defines='', genops=False):
  """Builds /verif/harness/<harness>.cc; returns the path of the executable.

  repo_srcs: None for the whole engine (as a shared library), or the list of
  repository .cc files the harness needs; 'closure' as its first item adds what
  the harness and those files include.
  """
  if repo_srcs and repo_srcs[0] == 'closure':
    repo_srcs = closure(
        [f'{VERIF}/harness/{harness}.cc'] + list(extra_srcs), repo_srcs[1:])
  with lock('build'):
    gen = os.path.join(BUILD, 'gen')
    pbs = gen_protos(gen)
    d = os.path.join(BUILD, 'obj-' + variant)
    bindir = os.path.join(BUILD, 'bin')
    os.makedirs(bindir, exist_ok=True)
    shutil.rmtree(d, ignore_errors=True)
    nj = Ninja(d, gen, variant)
    objs = []
    hobj = nj.cc(f'{VERIF}/harness/{harness}.cc', f'h_{harness}.o', defines)
    objs.append(hobj)
    objs.append(nj.cc(f'{VERIF}/lib/pbt.cc', 'pbt.o'))
    for s in extra_srcs:
      objs.append(nj.cc(s, 'x_' + os.path.basename(s) + '.o'))
    exe = os.path.join(bindir, f'{harness}.{variant}')
    implicit, exlibs = [], ''
    if repo_srcs is None:
      lobjs = []
      for s in engine_sources():
        lobjs.append(nj.cc(f'{REPO}/{s}', 'e/' + s + '.o'))
      for p in pbs:
        lobjs.append(nj.cc(p, 'p/' + os.path.relpath(p, gen) + '.o'))
      if genops:
        sys.path.insert(0, os.path.join(VERIF, 'tools'))
        import genops as g
        for p in g.generate(os.path.join(BUILD, 'genops')):
          lobjs.append(nj.cc(p, 'g/' + os.path.basename(p) + '.o', '-O0'))
      so = os.path.join(bindir, 'libarolla_%s%s.so' % (variant, '_ops' if genops else ''))
      nj.rule('so', so, lobjs)
      implicit = [so]
      exlibs = f'{so} -Wl,-rpath,{bindir}'
    else:
      for s in repo_srcs:
        if s.endswith('.pb.cc'):
          objs.append(nj.cc(os.path.join(gen, s), 'p/' + s + '.o'))
        else:
          objs.append(nj.cc(f'{REPO}/{s}', 'e/' + s + '.o'))
    nj.rule('exe', exe, objs, implicit=implicit, exlibs=exlibs)
    nj.build([exe])
    shutil.rmtree(d, ignore_errors=True)
    return exe
