"""Setup: nothing needs building (pure Python); check that the framework imports and the library under test is /repo's."""
from . import core, gen, model, real, refexpr, runner, shrinker, simio  # noqa: F401

core.setup_paths()
assert refexpr.evaluate("-2 * (3 + 0x10) >> 1 | ~7 & 0b11") == (-2 * (3 + 0x10) >> 1 | ~7 & 0b11)
print("ok")
