REGISTRY = {}
PREBUILD = []


def check(prop, level="model_checking"):
    def deco(fn):
        fn.level = level
        REGISTRY[prop] = fn
        return fn
    return deco


from . import pool  # noqa: E402,F401
from . import trmul  # noqa: E402,F401
from . import mulsched  # noqa: E402,F401
from . import mul  # noqa: E402,F401
from . import alloc  # noqa: E402,F401
from . import cache  # noqa: E402,F401
from . import blockmap  # noqa: E402,F401
from . import pack  # noqa: E402,F401
from . import validate  # noqa: E402,F401
from . import env  # noqa: E402,F401
from . import profile  # noqa: E402,F401
from . import accuracy  # noqa: E402,F401
from . import tracing  # noqa: E402,F401
