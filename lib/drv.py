"""Used inside the processes that drive the real code: records what happens."""
import json
import math
import os
import sys
import traceback
from fractions import Fraction

BAD = 2000000011      # stands for a value the specification's scale cannot hold


class Tracer:
    def __init__(self, path=None):
        self.path = path or os.environ["VERIF_TRACE"]
        self.f = open(self.path, "w")
        self.cur = os.open(self.path + ".cur", os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        self.n = 0

    def begin(self, what):
        b = json.dumps(what).encode()[:2000]
        os.pwrite(self.cur, b + b" " * (2000 - len(b)), 0)

    def emit(self, **ev):
        d = {"op": ev.pop("op")}
        d.update(ev)
        self.f.write(json.dumps(d) + "\n")
        self.f.flush()
        self.n += 1


def enc(x, scale=1):
    """A float as an exact integer multiple of 1/scale, or BAD."""
    try:
        if isinstance(x, bool):
            return BAD
        if not math.isfinite(x):
            return BAD
        v = x * scale
        if v != math.floor(v) or abs(v) > 2 ** 30:
            return BAD
        return int(v)
    except Exception:
        return BAD


def encl(xs, scale=1):
    return [enc(x, scale) for x in xs]


def main(fn):
    """Run a driver: an exception of the driver itself is exit 3 (machinery)."""
    try:
        fn(sys.argv[1:])
        sys.stdout.flush()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(3)
    os._exit(0)
