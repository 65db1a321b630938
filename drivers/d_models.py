"""Drives the model registry and evaluation; see spec/Models.tla.

args: random|registry|params SEED NHIST NOPS | replay FILE
(registry: more creation, deletion, name clashes and listing, fewer value changes; params: more parameter changes)
"""
import json
import random
import re
import sys
from fractions import Fraction
import devsim as ds
from drv import Tracer, main
import meshes

P = 46337
T = None
SOLS = ["s1", "s2"]
NODES = ["a", "b", "c", "h"]
EDGES = ["e", "f", "g"]
ELEMS = ["k", "m"]
PARS = ["p", "q", "a", "e"]      # parameters and models may share names
ODD = ["nosuch"]
CMD = {"node": ("node_solution", "node_model", "delete_node_model", "set_node_values", "get_node_model_values", "get_node_model_list"),
       "edge": ("edge_solution", "edge_model", "delete_edge_model", "set_edge_values", "get_edge_model_values", "get_edge_model_list"),
       "elem": ("element_solution", "element_model", "delete_element_model", "set_element_values", "get_element_model_values", "get_element_model_list")}


def res(x):
    f = Fraction(float(x))
    return f.numerator * pow(f.denominator, -1, P) % P


def resl(xs):
    out = []
    for x in xs:
        try:
            out.append(res(x))
        except (ValueError, OverflowError):
            out.append(2000000011)
    return out


def text(a):
    k = a["k"]
    if k == "n":
        return repr(a["raw"]) if a["raw"] >= 0 else "(%r)" % a["raw"]
    if k == "id":
        return a["n"]
    if k == "-":
        return "(-%s)" % text(a["a"][0])
    return "(" + (" %s " % k).join(text(x) for x in a["a"]) + ")"


def clean(a):
    if a["k"] == "n":
        return {"k": "n", "v": res(a["raw"])}
    if a["k"] == "id":
        return {"k": "id", "n": a["n"], "al": alias(a["n"])}
    return {"k": a["k"], "a": [clean(x) for x in a["a"]]}


def alias(n):
    if n.endswith("@en0") or n.endswith("@en1"):
        return n[:-3] + n[-2:]
    return ""


def num(v):
    return {"k": "n", "raw": v}


def idn(n):
    return {"k": "id", "n": n}


class World:
    registry = False
    params = False
    pins = False
    maxbits = 46

    def __init__(self, rng):
        self.rng = rng
        self.reset()

    def reset(self):
        ds.reset_devsim()
        self.size = {}
        self.defs = {}          # (d, r) -> name -> shadow definition: used to keep numbers exactly representable
        self.meshes = set()
        self.pars = set()
        T.emit(op="reset")

    def call(self, ev, fn, kw, val=False, lst=False):
        T.begin(dict(ev))
        try:
            r = getattr(ds, fn)(**kw)
            ev["ok"] = True
            if val:
                ev["vals"] = resl(r)
            if lst:
                ev["lst"] = list(r) if r is not None and r != "" else []
        except ds.error:
            ev["ok"] = False
        T.emit(**ev)
        return ev["ok"]

    # ---- devices -------------------------------------------------------------
    def create(self, d, kind):
        if kind == "1d":
            regs = ["r1", "r2"]
            if kind not in self.meshes:
                meshes.mesh1d(kind, regs, spacing=[1.0, 0.5], cells=[3, 2])
        elif kind == "2d":
            regs = ["r1"]
            if kind not in self.meshes:
                meshes.mesh2d(kind, [0, 1, 2], [0, 1], [("r1", "Si")], [("c", "r1", 0, 0, 0, 1)])
        elif kind == "1e":
            regs = ["r1"]
            if kind not in self.meshes:
                meshes.mesh1d(kind, regs, spacing=2.0, cells=1)
        self.meshes.add(kind)
        ds.create_device(mesh=kind, device=d)
        ev = {"op": "create_device", "device": d, "regs": {}, "builtin": {}}
        for r in regs:
            nn, edges, elems = meshes.topology(d, r)
            kw = dict(device=d, region=r)
            ev["regs"][r] = {"nn": nn, "edges": [[a + 1, b + 1] for a, b in edges],
                             "elems": [[e + 1, n + 1] for e, n in elems],
                             "ilen": resl(ds.get_edge_model_values(name="EdgeInverseLength", **kw))}
            self.size[(d, r)] = {"node": nn, "edge": len(edges), "elem": len(elems)}
            b = {}
            cl = ["node", "edge"] + (["elem"] if elems else [])
            for cls in cl:
                for n in getattr(ds, CMD[cls][5])(**kw):
                    b[n] = {"cls": cls, "vals": resl(getattr(ds, CMD[cls][4])(name=n, **kw))}
            ev["builtin"][r] = b
            self.defs[(d, r)] = {n: {"cls": b[n]["cls"], "kind": "builtin", "bits": 12} for n in b}
        ev["ok"] = True
        T.emit(**ev)

    # ---- shadow bounds ---------------------------------------------------------
    def cost(self, D, n, stk=()):
        """(bits, size) of the value of n, to keep floating point exact and the check cheap."""
        if n not in D or n in stk:
            return (5, 1)
        m = D[n]
        k = m["kind"]
        if k in ("sol", "builtin"):
            return (m["bits"], 1)
        s = stk + (n,)
        if k == "expr":
            x = self.acost(D, m["ast"], s)
            return (max(x[0], m.get("pin", 0)), x[1])
        b = self.cost(D, m["base"], s)
        if m.get("dmod"):
            c = self.cost(D, m["dmod"], s)
            b = (max(b[0], c[0]), b[1] + c[1])
        return (b[0] + 3, b[1] + 1)

    def acost(self, D, a, stk):
        k = a["k"]
        if k == "n":
            return (4, 1)
        if k == "id":
            x = self.cost(D, a["n"], stk) if a["n"] in D else self.cost(D, alias(a["n"]), stk)
            return (max(x[0], 5), x[1] + 1)
        xs = [self.acost(D, x, stk) for x in a["a"]]
        sz = sum(x[1] for x in xs) + 1
        if k == "*":
            return (sum(x[0] for x in xs), sz)
        return (max(x[0] for x in xs) + len(xs), sz)

    def fits(self, D, new):
        E = dict(D)
        E.update(new)
        for n in E:
            b, s = self.cost(E, n)
            if b > self.maxbits or s > 90:
                return False
        return True

    # ---- commands ----------------------------------------------------------------
    def solution(self, d, r, cls, n):
        D = self.defs.get((d, r), {})
        if self.call({"op": "solution", "device": d, "region": r, "cls": cls, "name": n}, CMD[cls][0],
                     dict(device=d, region=r, name=n)):
            D[n] = {"cls": cls, "kind": "sol", "bits": 4}

    def define(self, d, r, cls, n, ast):
        D = self.defs.get((d, r), {})
        new = {n: {"cls": cls, "kind": "expr", "ast": ast}}
        if n in D and D[n]["kind"] == "builtin":
            return
        if not self.fits(D, new):
            return
        if self.call({"op": "define", "device": d, "region": r, "cls": cls, "name": n, "ast": clean(ast), "text": text(ast)},
                     CMD[cls][1], dict(device=d, region=r, name=n, equation=text(ast))):
            D.update(new)

    def efn(self, d, r, n):
        D = self.defs.get((d, r), {})
        n0, n1 = n + "@n0", n + "@n1"
        if any(x in D and D[x]["cls"] != "edge" for x in (n0, n1)):
            return
        new = {n0: {"cls": "edge", "kind": "from", "base": n}, n1: {"cls": "edge", "kind": "from", "base": n}}
        if not self.fits(D, new):
            return
        if self.call({"op": "edge_from_node", "device": d, "region": r, "name": n, "n0": n0, "n1": n1},
                     "edge_from_node_model", dict(device=d, region=r, node_model=n)):
            D.update(new)

    def elfn(self, d, r, n):
        D = self.defs.get((d, r), {})
        es = [n + "@en%d" % i for i in range(3)]
        if any(x in D and D[x]["cls"] != "elem" for x in es):
            return
        new = {x: {"cls": "elem", "kind": "from", "base": n} for x in es}
        if not self.fits(D, new):
            return
        if self.call({"op": "element_from_node", "device": d, "region": r, "name": n, "es": es},
                     "element_from_node_model", dict(device=d, region=r, node_model=n)):
            D.update(new)

    def average(self, d, r, n, e, how):
        if self.size.get((d, r), {}).get("elem"):
            how = "arithmetic"      # lengths of slanted edges are not exact
        D = self.defs.get((d, r), {})
        new = {e: {"cls": "edge", "kind": "avg", "base": n}}
        if e in D and D[e]["kind"] in ("builtin", "from") or not self.fits(D, new):
            return
        if self.call({"op": "average", "device": d, "region": r, "name": n, "edge": e, "how": how},
                     "edge_average_model", dict(device=d, region=r, node_model=n, edge_model=e, average_type=how)):
            D.update(new)

    def average_der(self, d, r, n, v, e, how):
        if self.size.get((d, r), {}).get("elem"):
            how = "arithmetic"
        D = self.defs.get((d, r), {})
        dn = "" if n == v else n + ":" + v
        if dn and (dn not in D or D[dn]["cls"] != "node"):
            return
        e0, e1 = e + ":" + v + "@n0", e + ":" + v + "@n1"
        new = {x: {"cls": "edge", "kind": "from", "base": n, "dmod": dn} for x in (e0, e1)}
        if not self.fits(D, new):
            return
        if self.call({"op": "average_der", "device": d, "region": r, "name": n, "var": v, "dn": dn, "e0": e0, "e1": e1, "how": how},
                     "edge_average_model", dict(device=d, region=r, node_model=n, edge_model=e, derivative=v, average_type=how)):
            D.update(new)

    def delete(self, d, r, cls, n):
        D = self.defs.get((d, r), {})
        if n in D and D[n]["kind"] == "builtin":
            return
        # the parts of a derived family go together: its leader first
        fam = [n]
        if n in D and D[n]["kind"] == "from":
            if n[-4:-1] == "@en":
                fam = [n[:-1] + c for c in "012"]
            else:
                fam = [n[:-1] + c for c in "01"]
        for x in fam:
            if self.call({"op": "delete", "device": d, "region": r, "cls": cls, "name": x}, CMD[cls][2],
                         dict(device=d, region=r, name=x)):
                del D[x]
            if fam[0] != n or len(fam) > 1:
                if self.rng.random() < 0.3:
                    self.read(d, r, cls, self.rng.choice(fam))

    def plain(self, D, n, stk=()):
        """no product anywhere below: the value or its absence is certain"""
        if n not in D or n in stk:
            return True
        m = D[n]
        if "dmod" in m:
            return False
        t = json.dumps(m.get("ast", ""))
        refs = set(m.get("refs", ())) | {m[k] for k in ("base", "dmod") if m.get(k)}
        if "ast" in m:
            refs |= set(re.findall('"n": "([^"]*)"', t)) | {alias(x) for x in re.findall('"n": "([^"]*)"', t)}
        fit = {m["cls"], "edge"} if m["cls"] == "elem" else {m["cls"]}
        if "ast" in m and any(x in D and D[x]["cls"] not in fit for x in refs):
            return False            # mixes node and edge data
        return '"*"' not in t and all(self.plain(D, x, stk + (n,)) for x in refs)

    def certain(self, D, n, stk=()):
        """plain, and no values set over expressions, which may or may not still be there"""
        if n not in D or n in stk:
            return True
        m = D[n]
        refs = {m[k] for k in ("base", "dmod") if m.get(k)} | {y for x in re.findall('"n": "([^"]*)"', json.dumps(m.get("ast", ""))) for y in (x, alias(x))}
        return "pin" not in m and all(self.certain(D, x, stk + (n,)) for x in refs)

    def settable(self, D, n):
        return n not in D or D[n]["kind"] == "sol" or (D[n]["kind"] == "expr" and self.pins and self.plain(D, n))

    def pinned(self, D, n, bits):
        if D[n]["kind"] == "sol":
            D[n]["bits"] = bits
        else:
            D[n]["pin"] = max(bits, D[n].get("pin", 0))

    def set_values(self, d, r, cls, n, vals):
        D = self.defs.get((d, r), {})
        if not self.settable(D, n):
            return
        if self.call({"op": "set_values", "device": d, "region": r, "cls": cls, "name": n, "new": resl(vals)}, CMD[cls][3],
                     dict(device=d, region=r, name=n, values=[float(v) for v in vals])):
            self.pinned(D, n, 4)

    def copy_values(self, d, r, cls, n, src):
        D = self.defs.get((d, r), {})
        if not self.settable(D, n) or not self.plain(D, src) or not self.certain(D, src):
            return
        b = self.cost(D, src)[0]
        if b > 20:
            return
        if n in D:
            E = dict(D)
            new = {n: dict(D[n], bits=max(b, 4), pin=max(b, 4))}
            if not self.fits(E, new):
                return
        if self.call({"op": "copy_values", "device": d, "region": r, "cls": cls, "name": n, "from": src}, CMD[cls][3],
                     dict(device=d, region=r, name=n, init_from=src)):
            if D[n]["kind"] == "sol":
                self.pinned(D, n, max(b, 4))

    def set_one(self, d, r, n, i, v):
        D = self.defs.get((d, r), {})
        if not self.settable(D, n) or (i != -1 and not self.certain(D, n)):
            return
        kw = dict(device=d, region=r, name=n, value=float(v))
        if i != -1:
            kw["index"] = i
        if self.call({"op": "set_one", "device": d, "region": r, "name": n, "index": i, "val": res(v)}, "set_node_value", kw):
            self.pinned(D, n, 4 if D[n]["kind"] == "expr" else D[n]["bits"])

    def read(self, d, r, cls, n):
        self.call({"op": "read", "device": d, "region": r, "cls": cls, "name": n}, CMD[cls][4],
                  dict(device=d, region=r, name=n), val=True)

    def list(self, d, r, cls):
        if cls == "elem" and not self.has_elems(d, r):
            return
        self.call({"op": "list", "device": d, "region": r, "cls": cls}, CMD[cls][5], dict(device=d, region=r), lst=True)

    def has_elems(self, d, r):
        return any(m["cls"] == "elem" for m in self.defs.get((d, r), {}).values())

    def setpar(self, d, r, n, v):
        kw = {}
        if d:
            kw["device"] = d
        if r:
            kw["region"] = r
        self.call({"op": "set_parameter", "device": d, "region": r, "name": n, "val": res(v)}, "set_parameter",
                  dict(name=n, value=float(v), **kw))

    def misuse(self, d, r):
        """Requests that must be refused."""
        kw = dict(device=d, region=r)
        sol = [n for n, m in self.defs[(d, r)].items() if m["kind"] == "sol" and m["cls"] == "node"]
        k = self.rng.randrange(8)
        if k == 0 and sol:
            self.call({"op": "misuse", "what": "both"}, "set_node_values", dict(name=sol[0], values=[1.0] * 40, init_from=sol[0], **kw))
        elif k == 1 and sol:
            self.call({"op": "misuse", "what": "text"}, "set_node_values", dict(name=sol[0], values=["x", "y"], **kw))
        elif k == 2:
            self.call({"op": "misuse", "what": "syntax"}, "node_model", dict(name="a", equation="1+*2", **kw))
        elif k == 3:
            self.call({"op": "misuse", "what": "display"}, "node_model", dict(name="a", equation="1", display_type="nope", **kw))
        elif k == 4:
            self.call({"op": "misuse", "what": "average"}, "edge_average_model", dict(node_model="x", edge_model="zz", average_type="no", **kw))
        elif k == 5:
            self.call({"op": "misuse", "what": "region"}, "node_model", dict(device=d, region="noregion", name="a", equation="1"))
        elif k == 6:
            self.call({"op": "misuse", "what": "gradtype"}, "vector_gradient", dict(node_model="x", calc_type="no", **kw))
        elif k == 7 and sol:
            self.call({"op": "misuse", "what": "neither"}, "set_node_values", dict(name=sol[0], **kw))

    # ---- random histories ---------------------------------------------------------
    def leaf(self, d, r, cls):
        g = self.rng
        D = self.defs[(d, r)]
        x = g.random()
        if x < 0.2 and not self.params:
            return num(g.choice([1, 2, 3, -1, 0.5, 4]))
        if x < (0.7 if self.params else 0.42):
            return idn(g.choice(PARS + (ODD if g.random() < 0.1 else [])))
        pool = [n for n, m in D.items() if m["cls"] == cls and m["kind"] != "builtin"]
        if cls == "elem":
            pool += [n for n, m in D.items() if m["cls"] == "edge" and m["kind"] != "builtin"]
            pool += [n[:-2] + "e" + n[-2:] for n, m in D.items() if n[-3:] in ("@n0", "@n1") and n[:-2] + "e" + n[-2:] not in D and m["cls"] == "edge"]
        if g.random() < 0.03:
            pool = [n for n, m in D.items() if m["kind"] != "builtin"]
        if x > 0.95:
            b = [n for n, m in D.items() if m["kind"] == "builtin" and n in (("node_index", "edge_index", "x") + (() if self.size[(d, r)]["elem"] else ("EdgeLength", "unitx"))) and m["cls"] == cls]
            pool = b or pool
        if not pool:
            return num(2)
        n = g.choice(sorted(pool))
        return idn(n)

    def expr(self, d, r, cls, depth=0):
        g = self.rng
        if depth >= 2 or g.random() < 0.3:
            return self.leaf(d, r, cls)
        k = g.choice("+++**-")
        if k == "-":
            return {"k": "-", "a": [self.expr(d, r, cls, depth + 1)]}
        return {"k": k, "a": [self.expr(d, r, cls, depth + 1) for _ in range(g.choice([2, 2, 3]))]}

    def step(self):
        g = self.rng
        d, r = g.choice(sorted(self.defs))
        if g.random() < 0.02:
            d, r = g.choice([("nodev", "r1"), (d, "noreg")])
            D = {}
        else:
            D = self.defs[(d, r)]
        has2 = self.has_elems(d, r)
        cls = g.choice(["node", "node", "edge", "edge"] + (["elem", "elem"] if has2 or g.random() < 0.03 else []))
        names = {"node": SOLS + NODES, "edge": EDGES + ["y"], "elem": ELEMS}
        nn = g.choice(names[cls])
        if g.random() < 0.04:
            nn = g.choice(sum(names.values(), []))
        nodes = sorted(n for n, m in D.items() if m["cls"] == "node" and m["kind"] != "builtin") or ["x"]
        mine = sorted(n for n, m in D.items() if m["cls"] == cls and m["kind"] != "builtin")
        x = g.random()
        if self.params:
            x = g.choice([0.1, 0.2, 0.55, 0.6, 0.6, 0.6, 0.9, 0.9, 0.9, 0.9])
        if self.registry:
            if g.random() < 0.4:
                nn = g.choice(sum(names.values(), []))
            x = g.choice([0.05, 0.05, 0.2, 0.25, 0.29, 0.33, 0.36, 0.43, 0.43, 0.43, 0.5, 0.69, 0.69, 0.69, 0.71, 0.71, 0.9])
        if x < 0.06:
            self.solution(d, r, cls, g.choice(SOLS if cls == "node" and not self.registry else [nn]))
        elif x < 0.22:
            if D:
                self.define(d, r, cls, nn, self.expr(d, r, cls))
        elif x < 0.27:
            n = g.choice(nodes + ODD)
            self.efn(d, r, n)
        elif x < 0.30 and (has2 or g.random() < 0.2):
            self.elfn(d, r, g.choice(nodes))
        elif x < 0.34:
            self.average(d, r, g.choice(nodes), g.choice(EDGES), g.choice(["arithmetic", "gradient", "negative_gradient"]))
        elif x < 0.37 and D:
            n, v = g.choice(nodes), g.choice(nodes)
            if n != v and g.random() < 0.7:
                self.define(d, r, "node", n + ":" + v, self.expr(d, r, "node"))
            self.average_der(d, r, n, v, g.choice(EDGES), g.choice(["arithmetic", "gradient", "negative_gradient"]))
        elif x < 0.44:
            self.delete(d, r, cls, g.choice(mine + [nn]))
        elif x < 0.56:
            sols = [n for n in mine if self.settable(D, n)] or ["s1"]
            n = g.choice(sols)
            if n in D and D[n]["cls"] == cls:
                size = self.size[(d, r)][cls]
            else:
                size = 3
            if g.random() < 0.05:
                size += g.choice([-1, 1])
            y = g.random()
            if y < 0.6:
                self.set_values(d, r, cls, n, [g.randrange(-9, 10) for _ in range(size)])
            elif y < 0.8 or not mine:
                self.set_one(d, r, g.choice([m for m in nodes if self.settable(D, m)] or ["s1"]),
                             g.choice([-1, 0, 1, size - 1, size - 1, 99, -2]), g.randrange(-9, 10))
            else:
                self.copy_values(d, r, cls, n, g.choice(mine))
        elif x < 0.66:
            sc = g.choice([("", ""), (d, ""), (d, r)])
            if d in {k[0] for k in self.defs} and (d, r) in self.defs or sc[0] == "":
                self.setpar(sc[0], sc[1], g.choice(PARS), g.choice([-9, -3, -1, 1, 2, 5, 7]))
        elif x < 0.70:
            self.list(d, r, cls)
        elif x < 0.715 and D:
            self.misuse(d, r)
        else:
            pool = mine + [nn]
            if g.random() < 0.03:
                pool = list(D) or ["x"]
            self.read(d, r, cls, g.choice(pool))
            if g.random() < 0.03 and D:
                b = g.choice(sorted(n for n, m in D.items() if m["kind"] == "builtin"))
                self.read(d, r, D[b]["cls"], b)

    def readall(self):
        for (d, r), D in sorted(self.defs.items()):
            for cls in ("node", "edge", "elem"):
                self.list(d, r, cls)
            names = sorted(D)
            self.rng.shuffle(names)
            for n in names:
                self.read(d, r, D[n]["cls"], n)

    def history(self, nops):
        g = self.rng
        self.reset()
        for v in PARS[:2]:
            if g.random() < 0.8:
                self.setpar("", "", v, g.choice([2, 3, -5]))
        kinds = g.choice([["1d"], ["2d"], ["1d", "1e"], ["2d", "1e"], ["1e"], ["1d", "1d"]])
        for i, k in enumerate(kinds):
            self.create("d%d" % i, k)
        for (d, r) in sorted(self.defs):
            for n in SOLS:
                self.solution(d, r, "node", n)
                self.set_values(d, r, "node", n, [g.randrange(-9, 10) for _ in ds.get_node_model_values(device=d, region=r, name=n)])
            if g.random() < 0.5:
                self.efn(d, r, "s1")
        for i in range(nops):
            self.step()
            if g.random() < 0.01 and len({d for d, _ in self.defs}) > 1:
                d = g.choice(sorted({d for d, _ in self.defs}))
                self.call({"op": "delete_device", "device": d}, "delete_device", dict(device=d))
                self.defs = {k: v for k, v in self.defs.items() if k[0] != d}
        self.readall()

    # ---- behaviours of ModelCache -----------------------------------------------
    def replay(self, lines):
        """One region, names a b c, parameter p; each line one command of the specification."""
        d, r = "d0", "r1"
        for o in lines:
            if o["l"] == 1:
                self.reset()
                self.create(d, "1e")
                self.setpar("", "", "p", 1)
            op = o["op"]
            if op == "sol":
                self.solution(d, r, "node", o["n"])
            elif op == "set":
                n = len(ds.get_node_model_values(device=d, region=r, name="x"))
                self.set_values(d, r, "node", o["n"], [o["v"]] * n)
            elif op == "expr":
                self.define(d, r, "node", o["n"], {"k": "+", "a": [num(1)] + [idn(x) for x in sorted(o["refs"])]} if o["refs"] else num(1))
            elif op == "delete":
                self.delete(d, r, "node", o["n"])
            elif op == "par":
                self.setpar("", "", "p", o["v"])
            elif op == "read":
                self.read(d, r, "node", o["n"])


def run(argv):
    global T
    T = Tracer()
    if argv[0] in ("random", "registry", "params"):
        seed, nh, nops = map(int, argv[1:4])
        w = World(random.Random(seed))
        w.registry = argv[0] == "registry"
        w.params = argv[0] == "params"
        w.pins = argv[0] == "random"
        for h in range(nh):
            w.rng = random.Random(seed * 100003 + h)
            w.history(nops)
    else:
        w = World(random.Random(1))
        with open(argv[1]) as f:
            w.replay([json.loads(x) for x in f])


if __name__ == "__main__":
    main(run)
