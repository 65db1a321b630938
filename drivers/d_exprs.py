"""Evaluates random expressions in the real code; see spec/Exprs.tla.

args: random SEED NHIST NEXPR
"""
import random
from fractions import Fraction
import sys
import devsim as ds
from drv import Tracer, main, enc
import meshes

P = 46337
LIM = 20000
T = None
CMD = {"node": ("node_model", "get_node_model_values"), "edge": ("edge_model", "get_edge_model_values"),
       "elem": ("element_model", "get_element_model_values")}
SETTER = {"node": ("node_solution", "set_node_values"), "edge": ("edge_solution", "set_edge_values"), "elem": ("element_solution", "set_element_values")}
INFIX = ("-", "/", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "+", "*")
TRANS = {"exp": (-8, 8), "log": (1, 50), "B": (-9, 9), "dBdx": (-9, 9), "erf": (-4, 4), "erfc": (-4, 4), "Fermi": (-9, 9),
         "dFermidx": (-9, 9), "sinh": (-4, 4), "cosh": (-4, 4), "tanh": (-4, 4), "acosh": (1, 9), "asinh": (-9, 9),
         "derfdx": (-4, 4), "derfcdx": (-4, 4)}


class Skip(Exception):
    pass


class Div0(Exception):
    pass


class World:
    def __init__(self, rng):
        self.rng = rng

    def text(self, a, args=None):
        k = a["k"]
        if k == "n":
            return str(a["v"]) if a["v"] >= 0 else "(%d)" % a["v"]
        if k == "par":
            return a["n"]
        if k == "arg":
            return "x%d" % a["v"]
        if k == "m":
            return a["n"]
        if k == "end":
            return "%s@%s%d" % (a["n"], "en" if a["elem"] else "n", a["w"] - 1)
        if k == "opp":
            return "%s@en%d" % (a["n"], a["w"])
        if k == "vec" or k == "call" or k == "fn":
            return "%s(%s)" % (a["f"], ",".join(self.text(x) for x in a["a"]))
        xs = [self.text(x) for x in a["a"]]
        if k == "neg":
            return "(-%s)" % xs[0]
        if k == "!":
            return "(!%s)" % xs[0]
        if k in INFIX:
            return "(%s)" % (" %s " % k).join(xs)
        return "%s(%s)" % (k, ",".join(xs))

    # exact evaluation, only to keep every number driven an exact small integer
    def at(self, a, cls, i, args=()):
        v = self.at_(a, cls, i, args)
        if abs(v) > LIM:
            raise Skip()
        return v

    def at_(self, a, cls, i, args):
        k = a["k"]
        if k == "n":
            return a["v"]
        if k == "arg":
            return args[a["v"] - 1]
        if k == "par":
            return self.par[a["n"]]
        if k == "m":
            return self.mat(a["n"], cls, i)
        if k == "end":
            e = self.elems[i][0] if cls == "elem" else i
            return self.mat(a["n"], "node", self.edges[e][a["w"] - 1])
        if k == "opp":
            return self.mat(a["n"], "node", self.elems[i][a["w"] - 1])
        if k == "vec":
            vs = [self.at(a["a"][0], a["cls"], j) for j in range(self.size(a["cls"]))]
            s = {"vec_sum": sum, "vec_max": max, "vec_min": min}[a["f"]](vs)
            if sum(map(abs, vs)) > LIM:
                raise Skip()
            return s
        xs = [self.at(x, cls, i, args) for x in a["a"]]
        if k == "call":
            return self.at(self.fns[a["f"]][1], cls, i, xs)
        if k == "+" or k in ("kahan3", "kahan4"):
            return sum(xs)
        if k == "*":
            p = 1
            for x in xs:
                p *= x
                if abs(p) > LIM:
                    raise Skip()
            return p
        if k == "neg":
            return -xs[0]
        if k == "-":
            return xs[0] - xs[1]
        if k == "/":
            if xs[1] == 0:
                raise Div0()
            if xs[0] % xs[1]:
                raise Skip()
            return xs[0] // xs[1]
        if k == "pow":
            if not 0 <= xs[1] <= 4:
                raise Skip()
            if xs == [0, 0]:
                raise Skip()
            return xs[0] ** xs[1]
        if k in ("==", "!=", "<", "<=", ">", ">="):
            return int(eval("%d %s %d" % (xs[0], k, xs[1])))
        if k == "&&":
            return int(bool(xs[0] and xs[1]))
        if k == "||":
            return int(bool(xs[0] or xs[1]))
        if k == "!":
            return int(not xs[0])
        if k == "abs":
            return abs(xs[0])
        if k == "sgn":
            return 1 if xs[0] >= 0 else -1
        if k == "step":
            return int(xs[0] >= 0)
        if k == "min":
            return min(xs)
        if k == "max":
            return max(xs)
        if k == "ifelse":
            return xs[1] if xs[0] else xs[2]
        if k == "if":
            return xs[1] if xs[0] else 0
        if k == "dot2d":
            return xs[0] * xs[2] + xs[1] * xs[3]
        raise AssertionError(k)

    def mat(self, n, cls, i):
        c, vals, ast = self.env[n]
        if c == "edge" and cls == "elem":
            i = self.elems[i][0]
            cls = "edge"
        return vals[i] if vals is not None else self.at(ast, cls, i)

    def size(self, cls):
        return {"node": self.nn, "edge": len(self.edges), "elem": len(self.elems)}[cls]

    # --------------------------------------------------------------------------
    def leaf(self, cls, depth):
        g = self.rng
        x = g.random()
        if x < 0.2:
            return {"k": "n", "v": g.choice([0, 1, 2, 3, -1, -2, 5])}
        if x < 0.35:
            return {"k": "par", "n": g.choice(sorted(self.par))}
        if cls != "node" and x < 0.7:
            w = g.choice([1, 2])
            fam = [n for n in self.fam if self.fam[n] == cls or self.fam[n] == "both"]
            n = g.choice(sorted(fam)) if fam else None
            if n:
                if cls == "elem" and g.random() < 0.4:
                    return {"k": "opp", "n": n, "w": g.choice(range(2, self.dim + 1))}
                return {"k": "end", "n": n, "w": w, "elem": cls == "elem"}
        rank = lambda n, c: (("node", "edge", "elem").index(c), n)
        pool = [n for n, (c, _, _) in self.env.items() if (c == cls or (cls == "elem" and c == "edge"))
                and (self.env[n][2] is None or rank(n, c) < rank(self.cur, cls))]
        if pool:
            return {"k": "m", "n": g.choice(sorted(pool))}
        return {"k": "n", "v": 2}

    def expr(self, cls, depth=0, vec=True):
        g = self.rng
        if depth >= 3 or g.random() < 0.2:
            return self.leaf(cls, depth)
        k = g.choice(["+", "+", "*", "*", "-", "neg", "/", "pow", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "!", "abs",
                      "sgn", "step", "min", "max", "ifelse", "ifelse", "if", "kahan3", "kahan4", "dot2d", "vec", "call"])
        n = {"neg": 1, "!": 1, "abs": 1, "sgn": 1, "step": 1, "ifelse": 3, "kahan3": 3, "kahan4": 4, "dot2d": 4}.get(k, 2)
        if k in ("+", "*"):
            n = g.choice([2, 3])
        if k == "vec":
            if not vec:
                return self.leaf(cls, depth)
            x = self.expr(cls, depth + 1, False)
            c = self.typ(x)
            if c is None or any("'k': '%s'" % w in str(x) for w in ("*", "/", "if", "ifelse", "call", "pow")):
                return x    # the class must be plain: such parts may be evaluated to a number only
            return {"k": "vec", "f": g.choice(["vec_sum", "vec_max", "vec_min"]), "cls": c, "a": [x]}
        if k == "call":
            if not self.fns:
                return self.leaf(cls, depth)
            f = g.choice(sorted(self.fns))
            return {"k": "call", "f": f, "a": [self.expr(cls, depth + 1, vec) for _ in range(self.fns[f][0])]}
        if k == "pow":
            return {"k": k, "a": [self.expr(cls, depth + 1, vec), {"k": "n", "v": g.choice([1, 2, 2, 3])}]}
        return {"k": k, "a": [self.expr(cls, depth + 1, vec) for _ in range(n)]}

    def typ(self, a):
        """The class of locations the code sees in the expression (None: a number)."""
        k = a["k"]
        if k in ("n", "par", "arg", "vec"):
            return None
        if k == "m":
            return self.env[a["n"]][0]
        if k == "end":
            return "elem" if a["elem"] and self.fam[a["n"]] == "elem" else ("elem" if a["elem"] else "edge")
        if k == "opp":
            return "elem"
        ts = {self.typ(x) for x in a["a"]} - {None}
        if not ts:
            return None
        return "elem" if "elem" in ts else ts.pop()

    def setting(self, name, value):
        ds.set_parameter(name=name, value=value)
        T.emit(op="setting", name=name, value=str(value))

    def setpar(self, n, v):
        self.par[n] = v
        ds.set_parameter(name=n, value=float(v))
        T.emit(op="par", name=n, val=v)

    def setvals(self, n, cls, create=False):
        g = self.rng
        if create:
            getattr(ds, SETTER[cls][0])(name=n, **self.kw)
        size = self.size(cls)
        x = g.random()
        if x < 0.2:
            v = [g.randrange(-6, 7)] * size
            if cls == "node" and x < 0.1:
                ds.set_node_value(name=n, value=float(v[0]), **self.kw)
            else:
                getattr(ds, SETTER[cls][1])(name=n, values=[float(y) for y in v], **self.kw)
        else:
            v = [g.randrange(-6, 7) for _ in range(size)]
            getattr(ds, SETTER[cls][1])(name=n, values=[float(y) for y in v], **self.kw)
        self.env[n] = (cls, v, None)
        T.emit(op="vals", name=n, cls=cls, vals=v)

    def families(self, n):
        ds.edge_from_node_model(node_model=n, **self.kw)
        self.fam[n] = "both" if self.elems else "edge"
        if self.elems:
            ds.element_from_node_model(node_model=n, **self.kw)

    def ok(self, ast, cls, allow0=False):
        """All locations exact and small; with allow0, divisions by zero only at the top."""
        try:
            for i in range(self.size(cls)):
                try:
                    self.at(ast, cls, i)
                except Div0:
                    if not allow0:
                        return False
                    for x in ast["a"]:
                        self.at(x, cls, i)
            if allow0 and all(self.at(ast["a"][0], cls, i) == 0 for i in range(self.size(cls))):
                return False
        except (Skip, Div0):
            return False
        return True

    def define(self, n, cls, ast):
        ds_cmd = CMD[cls][0]
        t = self.text(ast)
        getattr(ds, ds_cmd)(name=n, equation=t, **self.kw)
        self.env[n] = (cls, None, ast)
        T.emit(op="define", name=n, cls=cls, ast=ast, text=t)

    def read(self, n):
        cls = self.env[n][0]
        ev = {"op": "read", "name": n, "thr": self.thr}
        T.begin(ev)
        try:
            ev["vals"] = [enc(x) for x in getattr(ds, CMD[cls][1])(name=n, **self.kw)]
            ev["ok"] = True
        except ds.error:
            ev["ok"] = False
        T.emit(**ev)

    def readfn(self, n):
        cls = self.env[n][0]
        v = []
        T.begin({"op": "fn", "name": n})
        for x in getattr(ds, CMD[cls][1])(name=n, **self.kw):
            f = Fraction(float(x))
            v.append(f.numerator * pow(f.denominator, -1, P) % P)
        T.emit(op="fn", name=n, prec=str(self.ext), vals=v)

    def threads(self):
        g = self.rng
        self.thr = g.choice([1, 1, 2, 3, 4, 7])
        self.setting("threads_available", self.thr)
        self.setting("threads_task_size", g.choice([1, 1, 2, 5, 1024]))

    def history(self, nexpr, h):
        g = self.rng
        ds.reset_devsim()
        T.emit(op="reset")
        self.env, self.par, self.fam, self.fns = {}, {}, {}, {}
        self.ext = g.random() < 0.35
        if self.ext:
            self.setting("extended_model", True)
        self.thr = 1
        if g.random() < 0.8:
            self.threads()
        for p in ("p", "q"):
            self.setpar(p, g.randrange(-4, 5))
        kind = g.choice(["1d", "1d", "2d", "2d", "3d"])
        if kind == "1d":
            meshes.mesh1d("m", ["r1"], cells=g.choice([1, 2, 4, 6]))
        elif kind == "2d":
            meshes.mesh2d("m", range(g.choice([2, 3])), [0, 1], [("r1", "Si")], [("c", "r1", 0, 0, 0, 1)])
        else:
            meshes.gmsh3d("m")
        ds.create_device(mesh="m", device="d")
        self.kw = dict(device="d", region="r1")
        self.dim = {"1d": 1, "2d": 2, "3d": 3}[kind]
        self.nn, self.edges, self.elems = meshes.topology3("d", "r1")
        T.emit(op="device", top={"nn": self.nn, "edges": [[a + 1, b + 1] for a, b in self.edges],
                                 "elems": [[e[0] + 1] + [x + 1 for x in e[1:]] for e in self.elems]})
        # functions of the user's own, given by expressions in their arguments
        bodies = {"tri": (3, lambda x, y, z: x * y + z, {"k": "+", "a": [{"k": "*", "a": [{"k": "arg", "v": 1}, {"k": "arg", "v": 2}]}, {"k": "arg", "v": 3}]}),
                  "twice": (1, lambda x: 2 * x, {"k": "*", "a": [{"k": "n", "v": 2}, {"k": "arg", "v": 1}]}),
                  "bigger": (2, lambda x, y: float(x > y), {"k": ">", "a": [{"k": "arg", "v": 1}, {"k": "arg", "v": 2}]})}
        for f in bodies:
            if g.random() < 0.6:
                n, fn, ast = bodies[f]
                ds.register_function(name=f, nargs=n, procedure=fn)
                ds.symdiff(expr="declare(%s(%s))" % (f, ",".join("x%d" % i for i in range(1, n + 1))))
                self.fns[f] = (n, ast)
                T.emit(op="function", name=f, n=n, ast=ast)
        for n in ("s", "t"):
            self.setvals(n, "node", True)
            self.families(n)
        self.setvals("u", "edge", True)
        if self.elems:
            self.setvals("v", "elem", True)
        for n, cls in (("cn", "node"), ("cu", "edge")):     # constants: held as one value
            if g.random() < 0.7:
                self.define(n, cls, {"k": "n", "v": g.choice([1, 2, -3])})
        classes = ["node", "edge"] + (["elem"] * 2 if self.elems else [])
        for k in range(nexpr):
            x = g.random()
            if x < 0.12:
                self.threads()
            elif x < 0.25:
                n = g.choice(["s", "t", "u"])
                old = self.env[n]
                self.setvals(n, old[0])
                self.keep()
            elif x < 0.3:
                self.setpar(g.choice(["p", "q"]), g.randrange(-4, 5))
                self.keep()
            elif x < 0.42:
                cls = g.choice(classes)
                f = g.choice(sorted(TRANS))
                lo, hi = TRANS[f]
                n = self.cur = "f%d" % k
                a = self.expr(cls, 1)
                ast = {"k": "fn", "f": f, "a": [a]}
                if not self.ok(a, cls):
                    continue
                if not all(lo <= self.at(a, cls, i) <= hi for i in range(self.size(cls))):
                    continue
                self.define(n, cls, ast)
                self.readfn(n)
                del self.env[n]
                continue
            cls = g.choice(classes)
            n = g.choice(["a", "b", "c"]) + cls[:2]
            self.cur = n
            a = self.expr(cls)
            old = self.env.get(n)
            if not self.ok(a, cls, allow0=a["k"] == "/" and g.random() < 0.5):
                continue
            bad = not self.ok(a, cls)
            # what refers to the old definition must stay in range too
            self.env[n] = (cls, None, a)
            if any(v[2] is not None and not self.ok(v[2], v[0]) for m, v in self.env.items() if m != n) or (old is None and bad):
                if old is None:
                    del self.env[n]
                else:
                    self.env[n] = old
                continue
            if bad and any(n in str(v[2]) for m, v in self.env.items() if v[2] is not None and m != n):
                self.env[n] = old
                continue
            self.define(n, cls, a)
            self.read(n)
            if bad:
                self.define(n, cls, {"k": "n", "v": 1})
                self.read(n)
            self.keep()
            if g.random() < 0.2:
                self.families(n) if cls == "node" else None
            self.read(g.choice(sorted(m for m in self.env if self.env[m][2] is not None)))
        for n in sorted(self.env):
            if self.env[n][2] is not None:
                self.read(n)

    def keep(self):
        """Forget models that the last changes took out of range."""
        while True:
            drop = [m for m, v in self.env.items() if v[2] is not None and not self.ok(v[2], v[0])]
            if not drop:
                return
            for m in drop:
                self.define(m, self.env[m][0], {"k": "n", "v": 0})


def run(argv):
    global T
    T = Tracer()
    seed, nh, ne = map(int, argv[1:4])
    w = World(None)
    for h in range(nh):
        w.rng = random.Random(seed * 100003 + h)
        w.history(ne, h)


main(run)
