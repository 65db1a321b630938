"""Drives equations, contacts, interfaces, the circuit and the assembly; see spec/System.tla.

args: random|registry|circuit|contact SEED NHIST NOPS
"""
import random
import devsim as ds
from drv import Tracer, main
import meshes
import d_models
from d_models import World, res, resl, clean, text, num, idn, CMD

WKEY = {"node": "node_volume_model", "couple": "edge_couple_model", "v0": "edge_node0_volume_model",
        "v1": "edge_node1_volume_model", "ecouple": "element_edge_couple_model", "e0": "element_node0_volume_model",
        "e1": "element_node1_volume_model", "area": "surface_area_model"}
WCLS = {"node": "node", "couple": "edge", "v0": "edge", "v1": "edge", "ecouple": "elem", "e0": "elem", "e1": "elem", "area": "node"}
EQ = [("name", "name"), ("var", "variable_name"), ("upd", "variable_update"), ("node", "node_model"), ("edge", "edge_model"),
      ("edgevol", "edge_volume_model"), ("elem", "element_model"), ("v0", "volume_node0_model"), ("v1", "volume_node1_model"),
      ("time", "time_node_model")]
CEQ = [("circuit", "circuit_node"), ("node", "node_model"), ("edge", "edge_model"), ("edgevol", "edge_volume_model"),
       ("elem", "element_model"), ("v0", "volume_node0_model"), ("v1", "volume_node1_model"), ("ncur", "node_current_model"),
       ("ecur", "edge_current_model"), ("lcur", "element_current_model"), ("nchg", "node_charge_model"),
       ("echg", "edge_charge_model"), ("lchg", "element_charge_model")]
IEQ = [("n0", "name0"), ("n1", "name1"), ("model", "interface_model"), ("type", "type")]
CLS = {"node": "node", "time": "node", "ncur": "node", "nchg": "node", "edge": "edge", "edgevol": "edge", "ecur": "edge",
       "echg": "edge", "elem": "elem", "v0": "elem", "v1": "elem", "lcur": "elem", "lchg": "elem"}
VARS = ["u", "v"]
EQS = ["E1", "E2", "E3"]
CNODES = ["n1", "n2", "n3"]
FAM = {"node": [""], "edge": ["@n0", "@n1"]}


def iclean(a):
    if a["k"] == "n":
        return {"k": "n", "v": res(a["raw"])}
    if a["k"] == "id":
        n = a["n"]
        s = {"@r0": 0, "@r1": 1}.get(n[-3:], 2)
        return {"k": "id", "n": n, "b": n[:-3] if s != 2 else n, "s": s}
    return {"k": a["k"], "a": [iclean(x) for x in a["a"]]}


class Sys(World):
    maxbits = 22
    mode = "random"

    def reset(self):
        ds.reset_devsim()
        self.size = {}
        self.defs = {}
        self.meshes = set()
        self.pars = set()
        self.dev = {}       # device -> dict(cons, ifs, dim)
        self.eqs = {}
        self.ceqs = {}
        self.ieqs = {}
        self.imods = {}     # (d, i) -> name -> bits
        self.cn = set()
        self.al = {}
        self.el = {}
        self.cust = {}
        self.out = {}
        self.lock = False
        d_models.T.emit(op="reset")

    # ---- devices ---------------------------------------------------------------
    def shape(self, kind):
        if kind == "1s":
            return ["r1"], lambda: meshes.mesh1d(kind, ["r1"], spacing=1.0, cells=2), 1
        if kind == "1d":
            return ["r1", "r2"], lambda: meshes.mesh1d(kind, ["r1", "r2"], spacing=[1.0, 0.5], cells=[2, 1]), 1
        if kind == "2s":
            return ["r1"], lambda: meshes.gmsh2d(
                kind, 2, 1, [("r1", [(0, 0), (1, 0)])],
                [("c0", "r1", [((0, 0), (0, 1))]), ("c1", "r1", [((0, 0), (1, 0)), ((1, 0), (2, 0))]),
                 ("c2", "r1", [((2, 0), (2, 1))])], (), [(1, 0)]), 2
        if kind == "2d":
            return ["r1", "r2"], lambda: meshes.gmsh2d(
                kind, 2, 1, [("r1", [(0, 0)]), ("r2", [(1, 0)])],
                [("c0", "r1", [((0, 0), (0, 1))]), ("c1", "r1", [((0, 0), (1, 0))]), ("c2", "r2", [((2, 0), (2, 1))])],
                [("i1", "r1", "r2", [((1, 0), (1, 1))])], [(1, 0)]), 2
        if kind == "2t":
            return ["r1", "r2", "r3"], lambda: meshes.gmsh2d(
                kind, 2, 2, [("r1", [(0, 0), (0, 1)]), ("r2", [(1, 0)]), ("r3", [(1, 1)])],
                [("c0", "r1", [((0, 0), (0, 1))]), ("c1", "r2", [((1, 0), (2, 0))])],
                [("i1", "r1", "r2", [((1, 0), (1, 1))]), ("i2", "r1", "r3", [((1, 1), (1, 2))]),
                 ("i3", "r2", "r3", [((1, 1), (2, 1))])]), 2
        if kind == "3s":
            return ["r1"], lambda: meshes.gmsh3d(kind), 3

    def create(self, d, kind):
        regs, make, dim = self.shape(kind)
        if kind not in self.meshes:
            make()
            self.meshes.add(kind)
        ds.create_device(mesh=kind, device=d)
        ev = {"op": "create_system", "device": d, "regs": {}, "builtin": {}, "cons": {}, "ifs": {}}
        coord = {}
        for r in regs:
            kw = dict(device=d, region=r)
            nn, edges, elems = meshes.topology3(d, r)
            ev["regs"][r] = {"nn": nn, "edges": [[a + 1, b + 1] for a, b in edges],
                             "elems": [[x + 1 for x in e] for e in elems],
                             "ilen": resl(ds.get_edge_model_values(name="EdgeInverseLength", **kw))}
            self.size[(d, r)] = {"node": nn, "edge": len(edges), "elem": len(elems)}
            b = {}
            self.defs[(d, r)] = D = {}
            for cls in ["node", "edge"] + (["elem"] if elems else []):
                for n in getattr(ds, CMD[cls][5])(**kw):
                    vals = getattr(ds, CMD[cls][4])(name=n, **kw)
                    b[n] = {"cls": cls, "vals": resl(vals)}
                    small = all(x * 64 == int(x * 64) and abs(x) < 64 for x in vals)
                    D[n] = {"cls": cls, "kind": "builtin", "bits": 12 if small else 60, "small": small}
            ev["builtin"][r] = b
            coord[r] = list(zip(*[ds.get_node_model_values(name=c, **kw) for c in "xyz"]))
            self.eqs[(d, r)] = {}
        for c in ds.get_contact_list(device=d):
            r = ds.get_region_list(device=d, contact=c)[0]
            ns = sorted({n for e in ds.get_element_node_list(device=d, region=r, contact=c) for n in e})
            ev["cons"][c] = {"reg": r, "nodes": [n + 1 for n in ns]}
            self.ceqs[(d, c)] = {}
        for i in ds.get_interface_list(device=d):
            r0, r1 = ds.get_region_list(device=d, interface=i)
            # the order of the pairs is the order of the interface's models
            ds.interface_model(device=d, interface=i, name="order", equation="node_index@r0")
            n0 = [int(x) for x in ds.get_interface_model_values(device=d, interface=i, name="order")]
            ds.delete_interface_model(device=d, interface=i, name="order")
            n1 = [coord[r1].index(coord[r0][x]) for x in n0]
            for r, n in ((r0, n0), (r1, n1)):
                assert sorted(n) == sorted({x for e in ds.get_element_node_list(device=d, region=r, interface=i) for x in e})
            ev["ifs"][i] = {"r0": r0, "r1": r1, "n0": [x + 1 for x in n0], "n1": [x + 1 for x in n1]}
            self.ieqs[(d, i)] = {}
            self.imods[(d, i)] = {}
        self.dev[d] = {"cons": ev["cons"], "ifs": ev["ifs"], "dim": dim}
        d_models.T.emit(ok=True, **ev)

    def delete_device(self, d):
        if self.call({"op": "delete_device", "device": d}, "delete_device", dict(device=d)):
            for t in (self.defs, self.eqs, self.ceqs, self.ieqs, self.imods, self.size):
                for k in [k for k in t if k[0] == d]:
                    del t[k]
            self.dev.pop(d, None)

    # ---- equations ---------------------------------------------------------------
    @staticmethod
    def opts(q, table):
        return {o: q[k] for k, o in table if q[k] != ""}

    def command(self, ev, fn, kw, table, owner):
        """get_*_equation_command: the options it would take to make the equation again."""
        d_models.T.begin(dict(ev))
        try:
            r = getattr(ds, fn)(**kw)
            ev["ok"] = True
            got = {k: str(r.get(o, "?missing")) for k, o in table}
            if {k: v for k, v in r.items() if k not in [o for _, o in table]} != owner:
                got["extra"] = repr(r)
            ev["got"] = got
        except ds.error:
            ev["ok"] = False
        d_models.T.emit(**ev)

    def equation(self, d, r, q):
        kw = self.opts(q, EQ)
        kw.setdefault("name", "")
        kw.setdefault("variable_name", "")
        ev = {"op": "equation", "device": d, "region": r, "eq": q}
        if self.call(ev, "equation", dict(device=d, region=r, **kw)):
            self.eqs[(d, r)][q["name"]] = q

    def contact_equation(self, d, c, n, q):
        ev = {"op": "contact_equation", "device": d, "contact": c, "name": n, "eq": q}
        if self.call(ev, "contact_equation", dict(device=d, contact=c, name=n, **self.opts(q, CEQ))):
            self.ceqs[(d, c)][n] = q

    def interface_equation(self, d, i, n, q):
        ev = {"op": "interface_equation", "device": d, "iface": i, "name": n, "eq": q}
        if self.call(ev, "interface_equation", dict(device=d, interface=i, name=n, **self.opts(q, IEQ))):
            self.ieqs[(d, i)][n] = q

    def list_eqs(self):
        g = self.rng
        x = g.random()
        if x < 0.4:
            d, r = g.choice(sorted(self.eqs))
            self.call({"op": "equation_list", "device": d, "region": r}, "get_equation_list", dict(device=d, region=r), lst=True)
            n = g.choice(sorted(self.eqs[(d, r)]) + ["E9"])
            self.command({"op": "equation_command", "device": d, "region": r, "name": n}, "get_equation_command",
                         dict(device=d, region=r, name=n), EQ, {"device": d, "region": r})
        elif x < 0.7 and self.ceqs:
            d, c = g.choice(sorted(self.ceqs))
            self.call({"op": "contact_equation_list", "device": d, "contact": c}, "get_contact_equation_list", dict(device=d, contact=c), lst=True)
            n = g.choice(sorted(self.ceqs[(d, c)]) + ["E9"])
            self.command({"op": "contact_equation_command", "device": d, "contact": c, "name": n}, "get_contact_equation_command",
                         dict(device=d, contact=c, name=n), CEQ, {"device": d, "contact": c, "name": n})
        elif self.ieqs:
            d, i = g.choice(sorted(self.ieqs))
            self.call({"op": "interface_equation_list", "device": d, "iface": i}, "get_interface_equation_list", dict(device=d, interface=i), lst=True)
            n = g.choice(sorted(self.ieqs[(d, i)]) + ["E9"])
            self.command({"op": "interface_equation_command", "device": d, "iface": i, "name": n}, "get_interface_equation_command",
                         dict(device=d, interface=i, name=n), IEQ, {"device": d, "interface": i, "name": n})

    def delete_eq(self):
        g = self.rng
        x = g.random()
        if x < 0.5:
            d, r = g.choice(sorted(self.eqs))
            n = g.choice(sorted(self.eqs[(d, r)]) + ["E9"])
            if self.call({"op": "delete_equation", "device": d, "region": r, "name": n}, "delete_equation", dict(device=d, region=r, name=n)):
                del self.eqs[(d, r)][n]
        elif x < 0.8 and self.ceqs:
            d, c = g.choice(sorted(self.ceqs))
            n = g.choice(sorted(self.ceqs[(d, c)]) + ["E9"])
            if self.call({"op": "delete_contact_equation", "device": d, "contact": c, "name": n}, "delete_contact_equation", dict(device=d, contact=c, name=n)):
                del self.ceqs[(d, c)][n]
        elif self.ieqs:
            d, i = g.choice(sorted(self.ieqs))
            n = g.choice(sorted(self.ieqs[(d, i)]) + ["E9"])
            if self.call({"op": "delete_interface_equation", "device": d, "iface": i, "name": n}, "delete_interface_equation", dict(device=d, interface=i, name=n)):
                del self.ieqs[(d, i)][n]

    # ---- models of contacts and interfaces -------------------------------------------
    def contact_model(self, d, c, cls, n, ast):
        r = self.dev[d]["cons"].get(c, {"reg": "r1"})["reg"]
        D = self.defs.get((d, r), {})
        new = {n: {"cls": cls, "kind": "expr", "ast": ast}}
        if n in D and D[n]["kind"] == "builtin" or not self.fits(D, new):
            return
        if n in D and D[n]["cls"] != cls:
            return
        if self.call({"op": "contact_model", "device": d, "contact": c, "cls": cls, "name": n, "ast": clean(ast), "text": text(ast)},
                     "contact_%s_model" % cls, dict(device=d, contact=c, name=n, equation=text(ast))):
            D.update(new)

    def icost(self, a, d, i, stk=()):
        k = a["k"]
        if k == "n":
            return 4
        if k == "id":
            n = a["n"]
            M = self.imods[(d, i)]
            if n in M:
                return 99 if n in stk else max(5, self.icost(M[n], d, i, stk + (n,)))
            if n[-3:] in ("@r0", "@r1"):
                f = self.dev[d]["ifs"][i]
                return max(5, self.cost(self.defs[(d, f["r" + n[-1]])], n[:-3])[0])
            return 5
        xs = [self.icost(x, d, i, stk) for x in a["a"]]
        return sum(xs) if k == "*" else max(xs) + len(xs)

    def interface_model(self, d, i, n, ast):
        M = self.imods.get((d, i), {})
        old = M.get(n)
        if (d, i) in self.imods:
            M[n] = ast
            bad = any(self.icost(idn(m), d, i) > self.maxbits for m in M) 
            if old is None:
                del M[n]
            else:
                M[n] = old
            if bad:
                return
        if self.call({"op": "interface_model", "device": d, "iface": i, "name": n, "ast": iclean(ast), "text": text(ast)},
                     "interface_model", dict(device=d, interface=i, name=n, equation=text(ast))):
            M[n] = ast

    def fits(self, D, new):
        if not World.fits(self, D, new):
            return False
        # the models of interfaces see those of regions
        for (d, i), M in self.imods.items():
            f = self.dev[d]["ifs"][i]
            for s in ("r0", "r1"):
                if self.defs[(d, f[s])] is D:
                    E = dict(D)
                    E.update(new)
                    self.defs[(d, f[s])] = E
                    bad = any(self.icost(idn(m), d, i) > self.maxbits for m in M)
                    self.defs[(d, f[s])] = D
                    if bad:
                        return False
        return True

    # ---- circuit ----------------------------------------------------------------------
    def circuit_op(self):
        g = self.rng
        x = g.random()
        nodes = CNODES + sorted(self.al) + ["0"]
        # what the circuit is when a solve or assembly has locked it is for the specification
        if x < 0.14:
            n = g.choice(CNODES + ["GND", "a1"])
            self.call({"op": "circuit_node", "name": n}, "add_circuit_node", dict(name=n))
        elif x < 0.5:
            t = g.choice("VICLRR")
            name = t + g.choice("12")
            if g.random() < 0.03:
                name = g.choice(["Q1", "X"])
                t = name[0]
            v = g.choice([1, 2, 4, 0.5, -1]) if t != "R" else g.choice([1, 2, 4, 0.5])
            kw = dict(name=name, n1=g.choice(nodes), n2=g.choice(nodes), value=float(v))
            p = {t: res(v)}
            ac = False
            if t == "V":
                p.update(acreal=0, acimag=0)
            if g.random() < (0.4 if t == "V" else 0.04):
                ac = True
                for k in ("acreal", "acimag"):
                    a = g.choice([1, -2, 0.5])
                    kw[k] = a
                    p[k] = res(a)
            if self.call({"op": "circuit_element", "t": t, "name": name, "n1": kw["n1"], "n2": kw["n2"], "p": p, "ac": ac},
                         "circuit_element", kw):
                self.el[name] = t
        elif x < 0.6:
            name = g.choice(sorted(self.el) + ["R9"])
            t = self.el.get(name, "R")
            prm = g.choice(["value", "", t, t, "acreal", "nosuch"])
            v = g.choice([1, 2, 4, 0.5])
            kw = dict(name=name, value=float(v))
            if prm:
                kw["param"] = prm
            self.call({"op": "circuit_alter", "name": name, "param": prm, "val": res(v)}, "circuit_alter", kw)
        elif x < 0.66:
            n, a = g.choice(nodes), g.choice(["a1", "a2", "n1"])
            if self.call({"op": "circuit_alias", "node": n, "alias": a}, "circuit_node_alias", dict(node=n, alias=a)):
                self.al[a] = n
        elif x < 0.82:
            s, n, v = g.choice(["dcop"] * 8 + ["nosol", "dcop_prev"]), g.choice(nodes + ["V1.I"]), g.randrange(-9, 10)
            self.call({"op": "circuit_set", "sol": s, "node": n, "val": res(v)}, "set_circuit_node_value", dict(solution=s, node=n, value=float(v)))
        elif x < 0.92:
            s, n = g.choice(["dcop"] * 8 + ["nosol"]), g.choice(nodes + ["V1.I"])
            ev = {"op": "circuit_get", "sol": s, "node": n}
            d_models.T.begin(ev)
            try:
                ev["vals"] = [res(ds.get_circuit_node_value(solution=s, node=n))]
                ev["ok"] = True
            except ds.error:
                ev["ok"] = False
            d_models.T.emit(**ev)
        elif x < 0.95:
            self.call({"op": "circuit_nodes"}, "get_circuit_node_list", {}, lst=True)
        elif x < 0.98:
            self.call({"op": "circuit_solutions"}, "get_circuit_solution_list", {}, lst=True)
        elif g.random() < 0.4:
            self.call({"op": "circuit_delete"}, "delete_circuit", {})
            self.al = {}
            self.el = {}
            self.cn = set()

    # ---- custom equations, weights ----------------------------------------------------------
    def custom(self, wild=False):
        g = self.rng
        n = self.order()
        if n == 0:
            return

        q, out = self.tables(n, wild)
        name = g.choice(["x1", "x2"])

        def proc(what, when):
            return out["dc" if when == "DC" else "time"]
        if self.call({"op": "custom", "name": name, "eq": q}, "custom_equation", dict(name=name, procedure=proc)):
            self.cust[name] = q
            self.out[name] = out

    def tables(self, n, wild=False):
        g = self.rng

        def part():
            hi = n if not wild else n + 1
            lo = 0 if not wild else -1
            return {"m": [[g.randrange(lo, hi), g.randrange(lo, hi), g.choice([1, 2, -3])] for _ in range(g.randrange(3))],
                    "f": [[g.randrange(lo, hi), g.choice([1, 2, -3])] for _ in range(g.randrange(3))], "bulk": g.random() < 0.5}
        q = {"dc": part(), "time": part()}
        out = {k: ([x for t in q[k]["m"] for x in (t[0], t[1], float(t[2]))], [x for t in q[k]["f"] for x in (t[0], float(t[1]))], q[k]["bulk"])
               for k in q}
        for k in q:
            for t in q[k]["m"] + q[k]["f"]:
                t[-1] = res(t[-1])
        return q, out

    def order(self):
        k = sum(len(q) * self.size[dr]["node"] for dr, q in self.eqs.items())
        if self.known_circuit():
            ev = {"op": "circuit_nodes"}
            self.call(ev, "get_circuit_node_list", {}, lst=True)
            k += len(ev.get("lst", []))
        return k

    def known_circuit(self):
        return bool(self.el) or bool(self.cn)

    def weight(self, d, r, kind, n):
        kw = {}
        if d:
            kw["device"] = d
        if r:
            kw["region"] = r
        self.call({"op": "weight", "device": d, "region": r, "kind": kind, "name": n}, "set_parameter", dict(name=WKEY[kind], value=n, **kw))

    # ---- assembly --------------------------------------------------------------------------
    def assemble(self):
        if not any(self.eqs.values()) and not self.el:
            return
        ev = {"op": "assemble"}
        d_models.T.begin(ev)
        try:
            M = {f: ds.get_matrix_and_rhs(format=f) for f in ("csc", "csr")}
        except ds.error:
            ev["ok"] = False
            d_models.T.emit(**ev)
            return
        ev["ok"] = True
        ev["n"] = len(M["csc"]["static"]["rhs"])
        for k in ("static", "dynamic"):
            ev[k] = {f: {"ap": list(M[f][k]["ap"]), "ai": list(M[f][k]["ai"]), "av": resl(M[f][k]["av"])} for f in M}
            ev[k]["rhs"] = resl(M["csc"][k]["rhs"])
            ev[k]["rhs2"] = resl(M["csr"][k]["rhs"])
        ev["row"] = list(M["csc"]["permutation"]["row"])
        ev["copy"] = list(M["csc"]["permutation"]["copy"])
        if list(M["csr"]["permutation"]["row"]) != ev["row"] or list(M["csr"]["permutation"]["copy"]) != ev["copy"]:
            ev["row"] = []
        ev["num"] = {}
        for (d, r), q in self.eqs.items():
            for n in q:
                ev["num"].setdefault(d, {}).setdefault(r, {})[n] = [int(x) for x in ds.get_equation_numbers(device=d, region=r, equation=n)]
        ev["cnum"] = {}
        for n in CNODES + ["a1", "a2", "0", "GND"] + [e + ".I" for e in self.el]:
            try:
                ev["cnum"][n] = int(ds.get_circuit_equation_number(node=n))
            except ds.error:
                pass
        d_models.T.emit(**ev)

    # ---- random histories ------------------------------------------------------------------
    def leaf(self, d, r, cls):
        g = self.rng
        D = self.defs[(d, r)]
        x = g.random()
        if x < 0.15:
            return num(g.choice([1, 2, 3, -1, 0.5]))
        if x < 0.25:
            return idn("p")
        if x < 0.38 and self.el:
            return idn(g.choice(CNODES + sorted(self.al)))
        pool = [n for n, m in D.items() if m["cls"] == cls and m["kind"] != "builtin" and n.isidentifier()]
        pool += [n for n in D if n[-3:] in ("@n0", "@n1") and ":" not in n and cls == "edge"]
        if cls == "elem":
            pool += [n for n in D if D[n]["cls"] == "edge" and n.isidentifier() and D[n]["kind"] != "builtin"]
            pool += [n for n in D if n[-4:-1] == "@en" and ":" not in n]
        return idn(g.choice(sorted(pool))) if pool else num(2)

    def family(self, d, r, cls):
        return {"node": [""], "edge": ["@n0", "@n1"], "elem": ["@en%d" % i for i in range(self.dev[d]["dim"] + 1)]}[cls]

    def physics(self, d, r, cls, n, cnode=None):
        """A model and some of its derivatives."""
        g = self.rng
        self.define(d, r, cls, n, self.expr(d, r, cls))
        for v in VARS:
            if g.random() < 0.75:
                for s in self.family(d, r, cls):
                    if g.random() < 0.985:
                        self.define(d, r, cls, n + ":" + v + s, self.expr(d, r, cls, 1))
        if g.random() < 0.35:
            self.define(d, r, cls, n + ":" + g.choice(CNODES + ["a1"]), self.expr(d, r, cls, 1))

    def some(self, d, r, cls, miss=0.02):
        g = self.rng
        if g.random() < miss:
            return "nomodel"
        D = self.defs[(d, r)]
        pool = sorted(n for n, m in D.items() if m["cls"] == cls and m["kind"] == "expr" and n in ("f1", "f2", "g1", "g2", "k1", "k2", "w1", "w2", "cm"))
        return g.choice(pool) if pool else ""

    def setup_region(self, d, r):
        g = self.rng
        dim = self.dev[d]["dim"]
        for n in VARS:
            self.solution(d, r, "node", n)
            self.set_values(d, r, "node", n, [g.randrange(-9, 10) for _ in range(self.size[(d, r)]["node"])])
            if g.random() < 0.7:
                self.efn(d, r, n)
            if dim == 2 and g.random() < 0.5:
                self.elfn(d, r, n)
        for n in ("f1", "f2"):
            self.physics(d, r, "node", n)
        for n in ("g1", "g2"):
            self.physics(d, r, "edge", n)
        if dim > 1:
            for n in ("k1", "k2"):
                self.physics(d, r, "elem", n)
        # weights of its own
        for k in WKEY:
            cls = WCLS[k]
            b = {"node": "NodeVolume", "couple": "EdgeCouple", "v0": "EdgeNodeVolume", "v1": "EdgeNodeVolume", "ecouple": "ElementEdgeCouple",
                 "e0": "ElementNodeVolume", "e1": "ElementNodeVolume", "area": "SurfaceArea"}[k]
            D = self.defs[(d, r)]
            if cls == "elem" and dim == 1:
                continue
            if not D.get(b, {}).get("small") or g.random() < 0.25:
                n = "w_" + (cls if g.random() < 0.5 else k)
                if n not in D:
                    self.solution(d, r, cls, n)
                    vals = [g.choice([1, 2, 3, -1, 0.5]) for _ in range(self.size[(d, r)][cls])]
                    if g.random() < 0.1:
                        vals = [0] * len(vals)
                    self.set_values(d, r, cls, n, vals)
                if k != "area":
                    self.weight(d, r, k, n)
                else:
                    self.area[(d, r)] = n
        if not self.defs[(d, r)].get("SurfaceArea", {}).get("small") and (d, r) not in self.area:
            pass

    def new_equation(self, d, r):
        g = self.rng
        dim = self.dev[d]["dim"]
        taken = {q["var"]: n for n, q in self.eqs[(d, r)].items()}
        n = g.choice(EQS[:2] + (EQS if g.random() < 0.1 else []))
        v = g.choice(VARS)
        if g.random() < 0.8:
            v = {"E1": "u", "E2": "v"}.get(n, v)
        q = {k: "" for k, _ in EQ}
        q.update(name=n, var=v, upd=g.choice(["default", "default", "log_damp", "positive"] + (["nope"] if g.random() < 0.05 else [])))
        for k in ("node", "edge", "edgevol", "time") + (("elem", "v0", "v1") if dim > 1 else ()):
            if g.random() < (0.55 if k not in ("v0", "v1") else 0.35):
                q[k] = self.some(d, r, CLS[k])
        if q["v0"] and not q["v1"] and g.random() < 0.9:
            q["v1"] = q["v0"]
        if q["v1"] and not q["v0"]:
            q["v0"] = q["v1"]
        self.equation(d, r, q)

    def contact_name(self, d, r):
        g = self.rng
        return g.choice(EQS[:2] + (EQS if g.random() < 0.05 else []))

    def contact_node(self):
        g = self.rng
        return g.choice(CNODES + sorted(self.al) + ["0"] + (["nonode"] if g.random() < 0.1 else []))

    def new_contact_equation(self, d, c):
        g = self.rng
        r = self.dev[d]["cons"][c]["reg"]
        dim = self.dev[d]["dim"]
        n = self.contact_name(d, r)
        q = {k: "" for k, _ in CEQ}
        if g.random() < 0.55:
            q["circuit"] = self.contact_node()
        for k in ("node", "edge", "edgevol", "ncur", "ecur", "nchg", "echg") + (("elem", "v0", "lcur", "lchg") if dim > 1 else ()):
            if g.random() < (0.8 if k == "node" else 0.35):
                q[k] = self.some(d, r, CLS[k], 0.005)
        if q["v0"]:
            q["v1"] = self.some(d, r, "elem", 0.005)
        self.contact_equation(d, c, n, q)

    def iexpr(self, d, i, depth=0):
        g = self.rng
        f = self.dev[d]["ifs"][i]
        x = g.random()
        if depth >= 2 or x < 0.3:
            y = g.random()
            if y < 0.2:
                return num(g.choice([1, 2, -1, 0.5]))
            if y < 0.35:
                return idn(g.choice(["p", "p", "p@r0", "p@r1", "q@r1"]))
            if y < 0.45 and self.imods[(d, i)]:
                return idn(g.choice(sorted(n for n in self.imods[(d, i)] if n.isidentifier()) or ["p"]))
            if y < 0.5 and self.el:
                return idn(g.choice(CNODES))
            s = g.choice(["r0", "r1"])
            pool = [n for n, m in self.defs[(d, f[s])].items() if m["cls"] == "node" and m["kind"] != "builtin" and n.isidentifier()] + ["node_index"]
            return idn(g.choice(sorted(pool)) + "@" + s)
        k = g.choice("++**-")
        return {"k": k, "a": [self.iexpr(d, i, depth + 1) for _ in range(1 if k == "-" else 2)]}

    def new_interface(self, d, i):
        g = self.rng
        n = g.choice(["h1", "h2"])
        self.interface_model(d, i, n, self.iexpr(d, i))
        for v in VARS:
            for s in ("@r0", "@r1"):
                if g.random() < 0.7:
                    self.interface_model(d, i, n + ":" + v + s, self.iexpr(d, i, 1))
        q = {"n0": g.choice(["", "E1", "E2"]), "n1": g.choice(["", "E1", "E2"]), "model": n if g.random() < 0.97 else "nomodel",
             "type": g.choice(["continuous", "fluxterm", "hybrid"] * 5 + ["other"])}
        if g.random() < 0.6:
            q["n1"] = q["n0"]
        self.interface_equation(d, i, g.choice(["E1", "E2"]), q)

    def change(self):
        """One step of a user's session."""
        g = self.rng
        x = g.random()
        d = g.choice(sorted(self.dev))
        r = g.choice(sorted(k[1] for k in self.defs if k[0] == d))
        D = self.defs[(d, r)]
        nd = self.size[(d, r)]["node"]
        lim = {"registry": (0.55, 0.75), "circuit": (0.1, 0.8), "contact": (0.15, 0.2)}.get(self.mode, (0.3, 0.55))
        if x < lim[0]:
            y = g.random()
            if y < 0.3:
                self.new_equation(d, r)
            elif y < 0.55 and self.dev[d]["cons"]:
                self.new_contact_equation(d, g.choice(sorted(self.dev[d]["cons"])))
            elif y < 0.7 and self.dev[d]["ifs"]:
                self.new_interface(d, g.choice(sorted(self.dev[d]["ifs"])))
            elif y < 0.85:
                self.list_eqs()
            elif y < 0.95 or self.mode != "registry":
                self.delete_eq()
            else:
                self.custom()
        elif x < lim[1]:
            self.circuit_op()
        elif x < 0.62:
            self.set_values(d, r, "node", g.choice(VARS), [g.randrange(-9, 10) for _ in range(nd)])
        elif x < 0.66:
            self.setpar(*g.choice([("", ""), (d, ""), (d, r)]), "p", g.choice([-3, 1, 2, 5]))
        elif x < 0.72:
            cls = g.choice(["node", "edge"] + (["elem"] if self.dev[d]["dim"] > 1 else []))
            self.physics(d, r, cls, g.choice({"node": ["f1", "f2"], "edge": ["g1", "g2"], "elem": ["k1", "k2"]}[cls]))
        elif x < 0.80 and self.dev[d]["cons"]:
            c = g.choice(sorted(self.dev[d]["cons"]))
            rc = self.dev[d]["cons"][c]["reg"]
            cls = g.choice(["node", "edge"])
            n = g.choice(["cm", "f1", "f2"] if cls == "node" else ["cg", "g1", "g2"])
            self.contact_model(d, c, cls, n, self.expr(d, rc, cls))
            if g.random() < 0.5:
                self.read(d, rc, cls, n)
        elif x < 0.86 and self.dev[d]["ifs"]:
            i = g.choice(sorted(self.dev[d]["ifs"]))
            n = g.choice(sorted(self.imods[(d, i)]) + ["h1"])
            if g.random() < 0.15:
                if self.call({"op": "delete_interface_model", "device": d, "iface": i, "name": n}, "delete_interface_model", dict(device=d, interface=i, name=n)):
                    del self.imods[(d, i)][n]
            elif g.random() < 0.5:
                self.interface_model(d, i, g.choice(["h1", "h2"]), self.iexpr(d, i))
            self.call({"op": "read_interface", "device": d, "iface": i, "name": n}, "get_interface_model_values", dict(device=d, interface=i, name=n), val=True)
            if g.random() < 0.3:
                self.call({"op": "interface_model_list", "device": d, "iface": i}, "get_interface_model_list", dict(device=d, interface=i), lst=True)
        elif x < 0.88:
            self.custom(wild=g.random() < 0.1)
        elif x < 0.90:
            k = g.choice(sorted(WKEY))
            pool = sorted(n for n, m in D.items() if m["cls"] == WCLS[k] and n[:2] == "w_")
            if pool and k != "area":
                self.weight(d, r, k, g.choice(pool))
        elif x < 0.905 and len(self.dev) > 1:
            self.delete_device(d)
        else:
            cls = g.choice(["node", "edge"])
            pool = sorted(n for n, m in D.items() if m["cls"] == cls and m["kind"] != "builtin")
            if pool:
                self.read(d, r, cls, g.choice(pool))

    def history(self, nops):
        g = self.rng
        self.reset()
        self.area = {}
        self.setpar("", "", "p", 2)
        if self.mode == "circuit":
            for _ in range(g.randrange(4, 14)):
                self.circuit_op()
        kinds = g.choice([["1s"], ["1d"], ["2s"], ["2d"], ["2t"], ["3s"], ["1s", "1d"], ["1d", "2s"], ["2d", "1s"]])
        for i, k in enumerate(kinds):
            self.create("d%d" % i, k)
        for n in CNODES:
            if g.random() < 0.5:
                if self.call({"op": "circuit_node", "name": n}, "add_circuit_node", dict(name=n)):
                    self.cn.add(n)
        for _ in range(g.randrange(5)):
            self.circuit_op()
        for (d, r) in sorted(self.defs):
            self.setup_region(d, r)
            for _ in range(3):
                if g.random() < 0.8:
                    self.new_equation(d, r)
        # the area of an interface goes by one name in both regions
        for d in self.dev:
            for r in [k[1] for k in self.defs if k[0] == d]:
                if not self.defs[(d, r)].get("SurfaceArea", {}).get("small") or any(k[0] == d for k in self.area):
                    if "w_area" not in self.defs[(d, r)]:
                        self.solution(d, r, "node", "w_area")
                        self.set_values(d, r, "node", "w_area", [g.choice([1, 2, 3]) for _ in range(self.size[(d, r)]["node"])])
                    self.weight(d, r, "area", "w_area")
            for c in sorted(self.dev[d]["cons"]):
                if g.random() < 0.7:
                    self.new_contact_equation(d, c)
            for i in sorted(self.dev[d]["ifs"]):
                if g.random() < 0.8:
                    self.new_interface(d, i)
        self.assemble()
        for k in range(nops):
            if not self.dev:
                break
            self.change()
            if g.random() < {"circuit": 0.12, "registry": 0.15}.get(self.mode, 0.22):
                self.assemble()
        self.assemble()


def run(argv):
    d_models.T = Tracer()
    seed, nh, nops = map(int, argv[1:4])
    w = Sys.__new__(Sys)
    w.rng = random.Random(0)
    w.mode = argv[0]
    for h in range(nh):
        w.rng = random.Random(seed * 100003 + h)
        w.history(nops)


if __name__ == "__main__":
    main(run)
