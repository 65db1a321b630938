"""Histories of the model compiler: what it is told and all that it prints."""
import json
import os
import random
import re
import subprocess
import sys
import tempfile
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drv

P = 31
M = P ** 3
EXE = os.path.join(os.environ.get("VERIF_BUILD", "/verif/build"), "devsim", "src", "adiff", "modelcomp")


# ---------------------------------------------------------------- reading terms
TOK = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)|([A-Za-z@][A-Za-z_0-9:]*)|(<=|>=|==|!=|&&|\|\||.))")


class Inexact(Exception):
    """A constant whose digits do not tell the number it stands for."""


def number(text):
    f = Fraction(text)
    digits = text.lower().split("e")[0].replace(".", "").strip("0")
    if len(digits) >= 13:
        # a rounded one: the simplest number that can be meant, if there is only one
        near = abs(f) * Fraction(1, 10 ** 14)
        d = 1
        while abs(f.limit_denominator(d) - f) > near:
            d *= 2
        g = f.limit_denominator(d)
        if near * d * d * 4 > 1:
            raise Inexact(text)
        f = g
    if f.denominator % P == 0:
        raise Inexact(text)
    return f.numerator * pow(f.denominator, -1, M) % M


class Reader:
    """The language of the model compiler, as its documentation has it."""

    def __init__(self, text, name):
        self.toks = [next(g for g in m.groups() if g is not None) for m in TOK.finditer(text.strip()) if m.group().strip()]
        self.k, self.name = 0, name

    def peek(self):
        return self.toks[self.k] if self.k < len(self.toks) else ""

    def take(self, what=None):
        t = self.peek()
        if not t or (what and t != what):
            raise ValueError("%r where %r is wanted in %s" % (t, what, " ".join(self.toks)))
        self.k += 1
        return t

    def all(self):
        e = self.level(0)
        if self.peek():
            raise ValueError("left over: " + " ".join(self.toks[self.k:]))
        return e

    LEVELS = [["||"], ["&&"], ["==", "!="], ["<", "<=", ">", ">="], ["+", "-"], ["*", "/"]]

    def level(self, n):
        if n == len(self.LEVELS):
            return self.power()
        e = self.level(n + 1)
        while self.peek() in self.LEVELS[n]:
            o = self.take()
            r = self.level(n + 1)
            if o == "-":
                e = ["+", e, ["*", ["c", M - 1], r]]
            elif o == "/":
                e = ["*", e, ["^", r, ["c", M - 1]]]
            else:
                e = [o, e, r]
        return e

    def power(self):
        b = self.unary()
        if self.peek() == "^":
            self.take()
            return ["^", b, self.power()]
        return b

    def unary(self):
        if self.peek() == "-":
            self.take()
            return ["*", ["c", M - 1], self.unary()]
        if self.peek() == "+":
            self.take()
            return self.unary()
        if self.peek() == "!":
            self.take()
            return ["!", self.unary()]
        return self.atom()

    def atom(self):
        t = self.take()
        if t == "(":
            e = self.level(0)
            self.take(")")
            return e
        if t[0].isdigit() or t[0] == ".":
            return ["c", number(t)]
        if self.peek() == "(":
            self.take()
            a = [self.level(0)]
            while self.peek() == ",":
                self.take()
                a.append(self.level(0))
            self.take(")")
            if t in ("exp", "log"):
                return [t] + a
            if t == "pow":
                return ["^"] + a
            return ["f", t] + a
        return self.name(t)


# ---------------------------------------------------------------- making terms
class Maker:
    def __init__(self, rng):
        self.rng = rng
        self.vars = {"any": ["x", "y", "z"], "one": ["a", "b"], "small": ["u", "w"]}
        self.sizes, self.depths = {}, {}
        self.models = {"any": [], "one": [], "small": []}
        self.funcs = {}
        self.allowed = True          # functions that work on terms

    def const(self):
        r = self.rng
        return r.choice(["0", "1", "1", "2", "2", "3", "4", "5", "7", "10", "0.5", "0.25", "1.5", "2.0", "1e1", "2.5e-1", ".5", "8", "100", "1e6", "0.1"])

    def leaf(self, kind):
        r = self.rng
        if self.models[kind] and r.random() < .35:
            n = r.choice(self.models[kind])
            return n, ["m", n]
        n = r.choice(self.vars[kind])
        return n, ["v", n]

    def bin(self, o, l, r):
        wrap = lambda t, e: t if self.rng.random() < .1 and e[0] in "cvmf" else "(" + t + ")"
        tl, tr = wrap(*l), wrap(*r)
        text = tl + self.rng.choice([" %s ", "%s"]) % o + tr
        e = {"-": lambda: ["+", l[1], ["*", ["c", M - 1], r[1]]], "/": lambda: ["*", l[1], ["^", r[1], ["c", M - 1]]]}.get(o, lambda: [o, l[1], r[1]])()
        return text, e

    def call(self, f, *args):
        return "%s(%s)" % (f, self.rng.choice([", ", ","]).join(a[0] for a in args))

    def size(self, e):
        """how much there is of a term when it is written out"""
        if e[0] in ("c", "v"):
            return 1
        if e[0] == "m":
            return self.sizes[e[1]]
        if e[0] == "diff":
            return 3 + 2 * self.size(e[1]) * (1 + self.deep(e[1]))
        if e[0] == "f":
            a = [self.size(x) for x in e[2:]]
            return self.funcs[e[1]]["size"] * max(a) + 1
        return 1 + sum(self.size(x) for x in e[1:])

    def deep(self, e):
        if e[0] in ("c", "v"):
            return 0
        if e[0] == "m":
            return self.depths[e[1]]
        if e[0] == "diff":
            return 2 + self.deep(e[1])
        if e[0] == "f":
            return self.funcs[e[1]]["depth"] + max(self.deep(x) for x in e[2:])
        return 1 + max(self.deep(x) for x in e[1:])

    def term(self, kind, d):
        while True:
            t, e = self.gen(kind, d)
            if kind == "any" and self.rng.random() < .1:       # a number with many digits
                k = self.rng.choice(["1234567", "3000000000", "7654321.0", "12345678901", "0.0009765625"])
                v, w = self.leaf("any")
                t, e = "%s*%s-(%s)" % (k, v, t), ["+", ["*", ["c", number(k)], w], ["*", ["c", M - 1], e]]
            if self.size(e) <= 250 and 2 * self.size(e) * (1 + self.deep(e)) < 4000:
                return t, e
            d = max(d - 1, 0)

    def gen(self, kind, d):
        r = self.rng
        if d <= 0 or r.random() < .1:
            if kind == "any" and r.random() < .25:
                t = self.const()
                return t, ["c", number(t)]
            return self.leaf(kind)
        g = lambda k, dd=None: self.gen(k, d - 1 if dd is None else dd)
        whole = lambda: (lambda n: ("(%d)" % n if n < 0 else str(n), ["c", n % M]))(r.choice([-3, -2, -1, 0, 1, 2, 2, 3, 4]))
        if self.allowed and r.random() < .1:
            k = r.choice(["simplify", "expand", "simplify", "diff", "parts", "signs"])
            e = g(kind)
            if k in ("simplify", "expand"):
                return self.call(k, e), e[1]
            if k == "diff" and kind != "one":
                v = r.choice(sum(self.vars.values(), []))
                s = g("any")
                t = self.call("diff", s, (v,)), ["diff", s[1], v]
                return t if kind == "any" else self.bin("*", (self.leaf("small")), t)
            if k == "parts":
                return "(scale(%s)*unscaledval(%s))" % (e[0], e[0]), e[1]
            return "(sign(%s)*unsignedval(%s))" % (e[0], e[0]), e[1]
        fs = [f for f in self.funcs if self.funcs[f]["kind"] == kind]
        if fs and r.random() < .2:
            f = r.choice(fs)
            a = [g("any") for _ in self.funcs[f]["args"]]
            return self.call(f, *a), ["f", f] + [x[1] for x in a]
        c = r.random()
        if kind == "small":
            if c < .4:
                return self.bin(r.choice("+-"), g("small"), g("small"))
            if c < .65:
                l, m = g("small"), g("any")
                return self.bin("*", *((l, m) if r.random() < .5 else (m, l)))
            if c < .8:
                e = g("one")
                return self.call("log", e), ["log", e[1]]
            if c < .9:
                return self.bin("-", g("one"), g("one"))
            e = g("small")
            return "-(" + e[0] + ")", ["*", ["c", M - 1], e[1]]
        if kind == "one":
            if c < .3:
                e = g("small")
                return self.call("exp", e), ["exp", e[1]]
            if c < .55:
                return self.bin(r.choice("*/"), g("one"), g("one"))
            if c < .75:
                b, k = g("one"), r.choice([lambda: g("any"), whole, lambda: ("0.5", ["c", number("0.5")])])()
                if r.random() < .5:
                    return self.call("pow", b, k), ["^", b[1], k[1]]
                return "(%s)^(%s)" % (b[0], k[0]), ["^", b[1], k[1]]
            if c < .9:
                return self.bin("+", ("1", ["c", 1]), g("small"))
            return self.leaf("one")
        if c < .2:
            return self.bin("+", g("any"), g("any"))
        if c < .33:
            return self.bin("-", g("any"), g("any"))
        if c < .53:
            return self.bin("*", g("any"), g("any"))
        if c < .63:
            return self.bin("/", g("any"), r.choice([lambda: g("one"), lambda: g("any"), lambda: ("2", ["c", 2]), lambda: self.leaf("any")])())
        if c < .77:
            b, k = g("any"), whole()
            if r.random() < .5:
                return self.call("pow", b, k), ["^", b[1], k[1]]
            return "(%s)^%s" % (b[0], k[0]), ["^", b[1], k[1]]
        if c < .83:
            e = g("any")
            return "-(%s)" % e[0], ["*", ["c", M - 1], e[1]]
        if c < .87:
            return self.bin(r.choice(["<", "<=", ">", ">=", "==", "!=", "&&", "||"]), g("any"), g("any"))
        if c < .88:
            e = g("any")
            return "!(%s)" % e[0], ["!", e[1]]
        if c < .93:
            # the precedence of the language
            a, b, q = (self.leaf("any") for _ in range(3))
            text = r.choice(["%s - %s - %s", "%s/%s/%s", "-%s^2*%s+%s", "%s-%s*%s", "%s+%s/%s", "%s*%s^2^1-%s", "+%s*-%s--%s", "%s<%s+%s", "2^-1*%s*%s*%s",
                             "!%s+%s<%s", "%s<%s==%s", "%s-2^2*%s^3/%s", "%s*(-3)*%s-(-%s)", "1.0e0*%s+%s-+%s"]) % (a[0], b[0], q[0])
            return text, Reader(text, lambda n: ["m", n] if n in sum(self.models.values(), []) else ["v", n]).all()
        return g(r.choice(["one", "small"]))


def history(T, rng, tmp):
    mk = Maker(rng)
    lines, evs = [], []
    nodes = ["na", "nb", "nc"][:rng.choice([1, 2, 2, 3])]
    for n in nodes:
        mk.vars[rng.choice(["any", "one", "small"])].append(n)
    T.begin({"op": "reset"})
    T.emit(op="reset")
    points = []
    for _ in range(3):
        p = {}
        for v in mk.vars["any"]:
            p[v] = rng.choice([k for k in [rng.randrange(100, M - 100) for _ in range(20)] if k % P not in (0, 1, P - 1)])
        for v in mk.vars["one"]:
            p[v] = 1 + P * rng.randrange(10, P * P - 10)
        for v in mk.vars["small"]:
            p[v] = P * rng.randrange(10, P * P - 10)
        points.append(p)
    T.emit(op="start", points=points)
    lines.append("title t;")
    decl = []
    for n in nodes:
        decl.append(("node", n))
    params = rng.sample(["x", "a", "u"], rng.choice([0, 1, 2]))
    decl += [("param", n) for n in params]
    rng.shuffle(decl)
    for k, n in decl:
        if k == "node":
            lines.append("%s %s;" % (rng.choice(["external_node", "internal_node"]), n))
            evs.append(dict(op="node", name=n))
        else:
            lines.append('parameter %s "a number" %s;' % (n, rng.choice(["1.0", "2.5e3"])))
    # functions: what they are worth is not known to the compiler
    late = []
    for f in rng.sample(["f", "g", "h"], rng.choice([0, 1, 2, 3])):
        args = rng.sample(["x", "y", "s", "t"], rng.choice([1, 1, 2, 3]))
        args = [a for a in args if a not in params and a not in nodes] or ["s"]
        sub = Maker(rng)
        sub.vars = {"any": args, "one": args, "small": args}
        sub.allowed = False
        body = ["c", rng.randrange(M)]
        for a in args:
            body = ["+", ["*", body, ["v", a]], ["^", ["v", a], ["c", rng.choice([2, 3])]]]
        mode = rng.choice(["declare", "define", "both", "both"])
        ders = []
        sub.funcs = {n: q for n, q in mk.funcs.items()}
        if mode == "both":
            sub.funcs[f] = dict(args=args, kind="any", size=8, depth=4)
        if mode != "declare":
            ders = [sub.term("any", rng.choice([0, 1, 2])) for _ in args]
        d = "%s(%s)" % (f, ", ".join(args))
        if mode in ("declare", "both"):
            lines.append("declarefunc %s;" % d)
        if mode in ("define", "both"):
            lines.append("definefuncdiff %s, %s;" % (d, ", ".join(t[0] for t in ders)))
        evs.append(dict(op="func", name=f, args=args, body=body, ders=[t[1] for t in ders]))
        mk.funcs[f] = dict(args=args, kind="any", size=max([6 * len(args)] + [sub.size(t[1]) for t in ders]), depth=max([2] + [sub.deep(t[1]) for t in ders]))
    nm = rng.choice([2, 3, 4, 5, 6])
    for k in range(nm):
        kind = rng.choice(["any", "any", "one", "small"])
        t, e = mk.term(kind, rng.choice([1, 2, 2, 3, 3, 4]))
        n = "m%d" % k
        lines.append("model %s %s;" % (n, t))
        evs.append(dict(op="model", name=n, src=e, shown=None))
        mk.sizes[n], mk.depths[n] = mk.size(e), mk.deep(e)
        mk.models[kind].append(n)
    for k, n in enumerate(rng.sample(nodes, len(nodes))):
        z = ("0", ["c", 0])
        dc = mk.term("any", rng.choice([1, 2, 3])) if rng.random() < .85 else z
        td = mk.term("any", rng.choice([1, 2])) if rng.random() < .6 else z
        q = "q%d" % k
        lines.append("equation %s %s ddt %s;" % (q, dc[0], td[0]))
        evs.append(dict(op="equation", name=q, dc=dc[1], td=td[1]))
        lines.append("link %s %s;" % (q, n))
        evs.append(dict(op="link", name=q, node=n))
    text = "\n".join(lines) + "\n"
    T.begin({"op": "compile", "text": text})
    try:
        r = subprocess.run([EXE], input=text, cwd=tmp, capture_output=True, text=True, timeout=100)
    except subprocess.TimeoutExpired:
        T.emit(op="crash", rc="no end", text=text)
        return
    if r.returncode:
        T.emit(op="crash", rc=r.returncode, text=text, err=r.stderr[-300:])
        return
    user = {e["name"] for e in evs if e["op"] == "model"}

    def meaning(n):
        """the term a name stands for"""
        if n in user:
            return ["m", n]
        if n.startswith("d_"):
            b, _, v = n[2:].rpartition("_d_")
            return ["diff", meaning(b), v]
        return ["v", n]

    rd = lambda s: Reader(s, meaning).all()
    err = r.stderr.split("\n")
    try:
        shown, se = {}, {}
        for l in err:
            if l.startswith("adding model: "):
                n, t = l[14:].split(" ", 1)
                shown[n] = rd(t)
            elif l.startswith("adding equation: "):
                n, t = l[17:].split(" ", 1)
                se[n] = [rd(x) for x in t.split(" ddt ")]
        for e in evs:
            if e["op"] == "model":
                e["shown"] = shown[e["name"]]
            elif e["op"] == "equation":
                e["showndc"], e["showntd"] = se[e["name"]]
            T.emit(**e)
        k = err.index("Equations:") + 1
        eqs, ders, cur, pend = [], [], None, None
        while k < len(err) and err[k] != "Models:":
            l = err[k]
            m = re.match(r"    (\w+)$", l)
            if m:
                cur = m[1]
            elif l.startswith("    dc  "):
                pend = rd(l[8:])
            elif l.startswith("    td  "):
                eqs.append([cur, pend, rd(l[8:])])
            elif re.match(r"  (dc|td),", l):
                part, rest = l[2:].split(",", 1)
                n, t = rest.split(" ", 1)
                ders.append([cur, part, n, rd(t)])
            k += 1
        T.emit(op="equations", list=eqs)
        T.emit(op="derivs", list=ders)
        lst = []
        for l in err[k + 1:]:
            m = re.match(r"\t(\w+)\t(.*)$", l)
            if not m:
                break
            lst.append([m[1], meaning(m[1]), rd(m[2])])
        T.emit(op="listed", list=lst)
        code = open(os.path.join(tmp, "t.cc")).read()
        eqn = {e["name"] for e in evs if e["op"] == "equation"}
        known = {x[0] for x in lst}
        for part, fn in (("dc", "assembleDC_impl"), ("td", "assembleTran_impl")):
            s = code[code.index("::" + fn):]
            s = s[:s.index("\n}\n")]
            local = lambda n: ["m", n] if n in known or re.match(r"unique\d+$", n) else ["v", n]
            defs, means = [], []
            for m in re.finditer(r"const double (\w+) = (.*);\n", s):
                n, t = m[1], m[2]
                if n in nodes:
                    continue
                if n in eqn or any(n == q + "_" + j for q in eqn for j in nodes):
                    if part == "td":
                        if not re.match(r"scl ?\*", t):
                            raise ValueError("no scale in " + t)
                        t = re.sub(r"^scl ?\* ?", "", t)
                elif n in known:
                    means.append([n, meaning(n)])
                defs.append([n, Reader(t, local).all()])
            rhs = [[m[1], m[2]] for m in re.finditer(r"rhs.push_back\(std::make_pair\(node_num_(\w+), (\w+)\)\)", s)]
            mat = [[m[1], m[2], m[3]] for m in re.finditer(r"RealRowColVal<double>\(node_num_(\w+),node_num_(\w+), (\w+)\)", s)]
            T.emit(op="routine", part=part, defs=defs, means=means, rhs=rhs, mat=mat)
    except Inexact:
        print("inexact")
    except (ValueError, KeyError, IndexError) as x:
        T.emit(op="unreadable", why=str(x)[:300], text=text)


def main(argv):
    seed, nh = map(int, argv[1:3])
    T = drv.Tracer()
    rng = random.Random(seed)
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(nh):
            history(T, rng, tmp)


drv.main(main)
