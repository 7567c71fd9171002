"""Which harnesses decide which property. Tests are matched by name prefix."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def CC(name, variant='san', srcs=(), **kw):
  return dict(kind='cc', name=name, variant=variant, srcs=list(srcs), **kw)


def ENG(name, **kw):
  """A harness linked against the whole engine."""
  return dict(kind='cc', name=name, variant='eng', srcs=None, **kw)


ENV = '/verif/harness/expr_env.cc'


def PYT(name, **kw):
  return dict(kind='py', name=name, **kw)


EXPR_EVAL = ENG('expr_eval', extra=[ENV], genops=True)
EXPR_CORE = ENG('expr_core', extra=[ENV], genops=True)
EXPR_TYPES = ENG('expr_types', extra=[ENV], genops=True)
EXPR_ARRAYS = ENG('expr_arrays', extra=[ENV], genops=True)
EXPR_AGGS = ENG('expr_aggs', extra=[ENV], genops=True)
EXPR_SCALARS = ENG('expr_scalars', extra=[ENV], genops=True)
EXPR_STRINGS = ENG('expr_strings', extra=[ENV], genops=True)
EXPR_KINDS = ENG('expr_kinds', extra=[ENV], genops=True)
EXPR_STRUCTS = ENG('expr_structs', extra=[ENV], genops=True)
EXPR_SER = ENG('expr_ser', extra=[ENV], genops=True)
EXPR_EXEC = ENG('expr_exec', extra=[ENV], genops=True)

UTIL = [
    'arolla/util/algorithms.cc', 'arolla/util/bits.cc',
    'arolla/util/preallocated_buffers.cc', 'arolla/util/threading.cc',
    'arolla/util/demangle.cc', 'arolla/util/binary_search.cc',
]
FOUNDATION = CC('foundation', 'san', UTIL)
FOUNDATION_T = CC('foundation_tsan', 'tsan', ['arolla/util/threading.cc'])
FOUNDATION_THR = CC('foundation_thr', 'opt', [
    'arolla/util/cancellation.cc', 'arolla/util/status.cc'])

FOUNDATION2 = CC('foundation2', 'san', [
    'arolla/algorithm/control_flow_graph.cc', 'arolla/pwlcurve/curves.cc',
    'arolla/util/string.cc', 'arolla/util/status.cc',
    'arolla/util/cancellation.cc', 'arolla/util/fingerprint.cc',
    'arolla/util/repr.cc', 'arolla/util/text.cc', 'arolla/util/bytes.cc',
    'arolla/util/unit.cc', 'arolla/util/init_arolla_internal.cc',
    'arolla/memory/optional_value.cc', 'arolla/util/demangle.cc',
    'arolla/naming/table.cc', 'arolla/naming/policy.cc',
    'arolla/naming/protopath_id.cc', 'arolla/jagged_shape/util/repr.cc',
])

ARRAYS = CC('arrays', 'san', ['closure'])
ARRAYS_S = CC('arrays_sparse', 'san', ['closure'])
ARRAYS_O = CC('arrays_ops', 'san', ['closure'])
ARRAYS_G = CC('arrays_agg', 'san', ['closure'])
ARRAYS_A = CC('arrays_acc', 'plain', ['closure'], extra=[
    f'{HERE}/harness/arrays_acc{k}.cc' for k in range(2, 8)])
FOREST = CC('forest', 'san', ['closure'])
IO = CC('io', 'san', ['closure'])
ARRAYS_E = CC('arrays_edges', 'san', ['closure'])

PYB = PYT('codegen_basic')
PYP = PYT('codegen_protopath')



def E2E(name, plan, **kw):
  """Generated loaders / listeners built from random specifications."""
  return dict(kind='e2e', name=name, plan=plan, **kw)


E2E_LOADERS = E2E('loaders', ['root', 'small', 'wild', 'flat', 'native', 'top', 'desc', 'bush', 'bush'])
E2E_ACCESSORS = E2E('accessors', ['acc', 'acc', 'acc', 'wildload', 'wildload'])
E2E_LISTENERS = E2E('listeners', ['listen'] * 4)

CHECKS = {
    'A01': {'components': [ARRAYS]},
    'A02': {'components': [ARRAYS]},
    'A03': {'components': [ARRAYS_S]},
    'A04': {'components': [ARRAYS]},
    'A05': {'components': [ARRAYS_E]},
    'A06': {'components': [ARRAYS_O]},
    'A07': {'components': [ARRAYS_G]},
    'A10': {'components': [ARRAYS_A]},
    'E01': {'components': [EXPR_CORE]},
    'E02': {'components': [EXPR_CORE]},
    'E03': {'components': [EXPR_EVAL]},
    'E04': {'components': [EXPR_SER]},
    'E05': {'components': [EXPR_CORE]},
    'E06': {'components': [EXPR_EXEC]},
    'E07': {'components': [EXPR_TYPES]},
    'E08': {'components': [EXPR_TYPES]},
    'E09': {'components': [EXPR_TYPES]},
    'E10': {'components': [EXPR_ARRAYS]},
    'E11': {'components': [EXPR_ARRAYS]},
    'E12': {'components': [EXPR_AGGS]},
    'E13': {'components': [EXPR_SCALARS]},
    'E14': {'components': [EXPR_STRINGS]},
    'E15': {'components': [EXPR_STRUCTS]},
    'E16': {'components': [EXPR_STRUCTS]},
    'E17': {'components': [EXPR_KINDS]},
    'E18': {'components': [EXPR_KINDS]},
    'I01': {'components': [IO]},
    'I02': {'components': [IO]},
    'I03': {'components': [IO]},
    'D01': {'components': [FOREST]},
    'D02': {'components': [FOREST]},
    'D03': {'components': [FOREST]},
    'A08': {'components': [ARRAYS_E]},
    'A09': {'components': [ARRAYS_E]},
    'G10': {'components': [E2E_LOADERS]},
    'G11': {'components': [E2E_LISTENERS]},
    'G12': {'components': [E2E_ACCESSORS]},
    'F01': {'components': [FOUNDATION, FOUNDATION_T]},
    'F02': {'components': [FOUNDATION]},
    'F03': {'components': [FOUNDATION]},
    'F04': {'components': [FOUNDATION, FOUNDATION_T]},
    'F05': {'components': [FOUNDATION, FOUNDATION_T]},
    'F06': {'components': [FOUNDATION]},
    'F07': {'components': [FOUNDATION]},
    'F08': {'components': [FOUNDATION2]},
    'F09': {'components': [FOUNDATION2]},
    'F10': {'components': [FOUNDATION2]},
    'F11': {'components': [FOUNDATION2]},
    'F12': {'components': [FOUNDATION2]},
    'F13': {'components': [FOUNDATION2]},
    'F14': {'components': [FOUNDATION2]},
    'F15': {'components': [FOUNDATION2]},
    'F16': {'components': [FOUNDATION2, FOUNDATION_THR]},
    'F17': {'components': [FOUNDATION2]},
    'F18': {'components': [FOUNDATION2]},
    'F19': {'components': [FOUNDATION2]},
    'G01': {'components': [PYB, PYP]},
    'G02': {'components': [PYB]},
    'G03': {'components': [PYB]},
    'G04': {'components': [PYB]},
    'G05': {'components': [PYB]},
    'G06': {'components': [PYP]},
    'G07': {'components': [PYP]},
    'G08': {'components': [PYP]},
    'G09': {'components': [PYP]},
}
