"""Make the real titus importable, instrumented, under python3-vt."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/venv/lib/pypy3.9/site-packages"


def boot():
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    import warnings
    warnings.filterwarnings("ignore", category=SyntaxWarning)
    import inspect
    import collections
    if not hasattr(inspect, "getargspec"):
        ArgSpec = collections.namedtuple("ArgSpec", "args varargs keywords defaults")

        def getargspec(f):
            s = inspect.getfullargspec(f)
            return ArgSpec(s.args, s.varargs, s.varkw, s.defaults)
        inspect.getargspec = getargspec
    import numpy
    for a, b in (("float_", "float64"), ("int_", "int64"), ("complex_", "complex128"), ("unicode_", "str_"), ("NaN", "nan"), ("Inf", "inf")):
        try:
            getattr(numpy, a)
        except AttributeError:
            setattr(numpy, a, getattr(numpy, b))
    # third-party pure-Python packages of the project's environment (avro, ply, pytz, yaml), after the stdlib
    sys.path.append(SITE)
    from sx import instrument, dates
    instrument.install({"titus": REPO, "harness": VERIF, "avro": SITE})
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    import titus.genpy


def boot_concrete():
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(10000)
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
