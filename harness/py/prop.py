"""Property registry for the Python harness modules."""
import collections

Test = collections.namedtuple('Test', 'name quick thorough rule strategies fn')
TESTS = {}


def prop(name, quick, thorough, rule, /, **strategies):
  def deco(fn):
    TESTS[name] = Test(name, quick, thorough, rule, strategies, fn)
    return fn

  return deco
