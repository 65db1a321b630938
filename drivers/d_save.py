"""Histories of devices being written to files and loaded again."""
import json
import os
import random
import tempfile

import devsim as ds
import drv
import d_gmesh
import look as lk

S = 2 ** 20
AWKWARD = [1 / 3, -2 / 7, 1.1, 1e-17 / 3, -0.30000000000000004, 2.0, 0.1 + 0.7, 1 - 2 ** -53, 1 + 2 ** -52, 5e-324, 1e-300 / 7, -0.0, 0.0, 1.25]


def approx(v):
    return int(round(v * S)) if abs(v) < 1000 else (drv.BAD if v == v else drv.BAD + 1)


class W:
    def __init__(self, T, rng, tmp):
        self.T, self.rng, self.tmp = T, rng, tmp
        self.kind = {}                    # device -> region -> name -> node | edge | element (of solutions)
        self.unit = {}
        self.files = {}                   # name -> set of devices

    def do(self, op, fn, **ev):
        self.T.begin(dict(ev, op=op))
        try:
            fn()
            ok = True
        except ds.error as x:
            if os.environ.get("LOUD"):
                print("REFUSED", op, ev, repr(str(x))[:400])
            ok = False
        self.T.emit(op=op, ok=ok, **ev)
        return ok

    # a command about one device, told by its arguments
    def cmd(self, d, word, **kw):
        txt = word + " " + " ".join("%s=%s" % (k, kw[k]) for k in sorted(kw))
        return self.do("cmd", lambda: getattr(ds, word)(device=d, **kw), d=d, c=txt)

    def reset(self):
        self.T.begin({"op": "reset"})
        ds.reset_devsim()
        self.kind, self.files = {}, {}
        for f in os.listdir(self.tmp):
            os.unlink(os.path.join(self.tmp, f))
        self.T.emit(op="reset")
        self.params()

    def params(self):
        ds.set_parameter(name="P", value=0.75)
        ds.add_circuit_node(name="N", variable_update="default")
        ds.set_parameter(name="raxis_zero", value=-50.0)
        ds.set_parameter(name="raxis_variable", value="x")

    def fresh(self):
        self.T.begin({"op": "fresh"})
        ds.reset_devsim()
        self.T.emit(op="fresh")
        self.params()
        self.kind = {}

    # ---------------------------------------------------------------- making
    def make(self, d):
        rng = self.rng
        dim, pts, parts, facets = d_gmesh.mesh(rng)
        if dim == 1:
            dim, pts, parts, facets = d_gmesh.mesh(rng)
        unit = rng.choice([1.0, 1 / 3, 0.1, 2.0])
        names, el = [], []

        def group(n, ts):
            names.append(n)
            for t in ts:
                t = list(t)
                rng.shuffle(t)
                el.append([len(t) - 1, len(names) - 1] + t)
        regs = ["r%d" % k if rng.random() < .8 else "R egion-%d" % k for k in range(len(parts))]
        for k, p in enumerate(parts):
            group("p%d" % k, p)
        cons, ifs = [], []
        for k in range(rng.choice([0, 1, 2, 2])):
            p = rng.randrange(len(parts))
            outer = sorted(facets[p] - set().union(*(facets[j] for j in range(len(parts)) if j != p))) or sorted(facets[p])
            some = rng.sample(outer, min(len(outer), rng.choice([1, 1, 2, 3])))
            if rng.random() < .25:
                some = sorted({(q,) for s in some for q in s})
            elif dim == 3 and rng.random() < .2:
                some = sorted({s[:2] for s in some})
            group("g%d" % k, some)
            cons.append(["g%d" % k, "c%d" % k, regs[p]])
        for a in range(len(parts)):
            for b in range(a):
                both = sorted(facets[a] & facets[b])
                if both and rng.random() < .8:
                    if rng.random() < .2:
                        both = sorted({(q,) for s in both for q in s})
                    group("s%d%d" % (a, b), both)
                    ifs.append(["s%d%d" % (a, b), "i%d%d" % (a, b)] + rng.sample([regs[a], regs[b]], 2))
        rng.shuffle(el)
        flat = [x for e in el for x in e]
        tell = json.dumps([unit, pts, names, flat, regs, cons, ifs])

        def fn():
            m = "mesh_" + d
            if m in ds.get_mesh_list():
                ds.delete_mesh(mesh=m)
            ds.create_gmsh_mesh(mesh=m, coordinates=[v * unit for p in pts for v in p], physical_names=names, elements=flat)
            for k, r in enumerate(regs):
                ds.add_gmsh_region(mesh=m, gmsh_name="p%d" % k, region=r, material=["Si", "Oxide Glass", "Si"][k])
            for g, n, r in cons:
                ds.add_gmsh_contact(mesh=m, gmsh_name=g, name=n, region=r, material="metal")
            for g, n, a, b in ifs:
                ds.add_gmsh_interface(mesh=m, gmsh_name=g, name=n, region0=a, region1=b)
            ds.finalize_mesh(mesh=m)
            ds.create_device(mesh=m, device=d)
            ds.delete_mesh(mesh=m)
        if self.do("make", fn, d=d, c=tell):
            self.kind[d] = {r: {} for r in regs}

    def equip(self, d):
        """One more definition on the device."""
        rng = self.rng
        dim = ds.get_dimension(device=d)
        r = rng.choice(sorted(self.kind[d]))
        sol = self.kind[d][r]
        kw = dict(region=r)
        nodes = [n for n in sorted(sol) if sol[n] == "node"]
        nm = [n for n in ds.get_node_model_list(device=d, region=r) if n[0] in "UVAZM" and ":" not in n and len(n) == 1]
        em = [n for n in ds.get_edge_model_list(device=d, region=r) if n in ("E", "Fl", "Av", "Bq")]
        tm = [n for n in ds.get_element_model_list(device=d, region=r) if n in ("T", "X")] if dim > 1 else []
        cons = [c for c in ds.get_contact_list(device=d)]
        ifs = [i for i in ds.get_interface_list(device=d)]
        k = rng.choice(["sol", "sol", "node", "node", "deriv", "efn", "edge", "edge", "average", "aderiv", "efe", "efed", "pair", "paird",
                        "efnm", "vec", "elem", "grad", "normal", "imodel", "cnode", "cedge", "cyl", "eq", "ceq", "ieq", "esol", "tsol",
                        "cfi", "ifn", "mat", "del", "sol", "builtin"])
        if not nodes and k not in ("sol",) and rng.random() < .8:
            k = "sol"
        if k == "sol":
            n = rng.choice(["U", "V", "Z"])
            if n not in sol and self.cmd(d, "node_solution", name=n, **kw):
                sol[n] = "node"
                self.set(d, r, n)
                if rng.random() < .5:
                    self.cmd(d, "edge_from_node_model", node_model=n, **kw)
        elif k == "esol":
            if "E" not in sol and self.cmd(d, "edge_solution", name="E", **kw):
                sol["E"] = "edge"
                self.set(d, r, "E")
        elif k == "tsol":
            if dim > 1 and "T" not in sol and self.cmd(d, "element_solution", name="T", **kw):
                sol["T"] = "element"
                self.set(d, r, "T")
        elif k == "node":
            u = rng.choice(nodes or ["x"])
            n = rng.choice([m for m in ["A", "M", "B2"]])
            self.cmd(d, "node_model", name=n, equation=rng.choice(
                ["%s*%s + P" % (u, u), "0.12345678901234567*%s - 3e-7" % u, "exp(%s)-x/3" % u, "ifelse(%s > 0, %s, -1)" % (u, u), "pow(%s,2)+1.0e0" % u,
                 "1.0", "node_index + 0.5*P", "-%s" % u, "NodeVolume*%s" % u, "asinh(%s) - abs(-y)" % u, "P", "log(1+%s^2)" % u, "%s != 0.1 || P == 0" % u]),
                **dict(kw, **rng.choice([{}, {"display_type": "nodisplay"}, {"display_type": "scalar"}])))
        elif k == "deriv" and nodes:
            u, a = rng.choice(nodes), rng.choice(["A", "M"])
            self.cmd(d, "node_model", name="%s:%s" % (a, u), equation="2*%s" % u, **kw)
        elif k == "efn":
            self.cmd(d, "edge_from_node_model", node_model=rng.choice(nm or ["x"]), **kw)
        elif k == "edge":
            n = rng.choice(["Fl", "Bq"])
            u = rng.choice(nodes or ["x"])
            if u + "@n0" not in ds.get_edge_model_list(device=d, region=r):      # names are bound when a model is defined
                self.cmd(d, "edge_from_node_model", node_model=u, **kw)
            self.cmd(d, "edge_model", name=n, equation=rng.choice(
                ["(%s@n1-%s@n0)*EdgeInverseLength" % (u, u), "B(%s@n0)+P" % u, "EdgeLength/7 + 2*%s@n0" % u, "dBdx(%s@n1) - unitx" % u, "edge_index/3", "2"]), **kw)
        elif k == "average":
            self.cmd(d, "edge_average_model", node_model=rng.choice(nm or ["x"]), edge_model="Av",
                     average_type=rng.choice(["arithmetic", "negative_gradient", "gradient", "arithmetic"]), **kw)
        elif k == "aderiv" and nodes:
            u, a = rng.choice(nodes), rng.choice(["A", "M"])
            if "%s:%s" % (a, u) in ds.get_node_model_list(device=d, region=r):
                at = rng.choice(["arithmetic", "gradient"])
                if self.cmd(d, "edge_average_model", node_model=a, edge_model="Av", average_type=at, **kw):
                    self.cmd(d, "edge_average_model", node_model=a, edge_model="Av", derivative=u, average_type=at, **kw)
        elif k in ("efe", "pair") and dim > 1 and em:
            self.cmd(d, "element_from_edge_model" if k == "efe" else "element_pair_from_edge_model", edge_model=rng.choice(em), **kw)
        elif k in ("efed", "paird") and dim > 1 and em and nodes:
            e, u = rng.choice(em), rng.choice(nodes)
            if e != "E" and self.cmd(d, "edge_from_node_model", node_model=u, **kw):
                for s in ("@n0", "@n1"):
                    self.cmd(d, "edge_model", name="%s:%s%s" % (e, u, s), equation="%s%s*%s" % (u, s, rng.choice(["2", "EdgeLength"])), **kw)
                c = "element_from_edge_model" if k == "efed" else "element_pair_from_edge_model"
                if self.cmd(d, c, edge_model=e, **kw):
                    self.cmd(d, c, edge_model=e, derivative=u, **kw)
        elif k == "efnm" and dim > 1:
            self.cmd(d, "element_from_node_model", node_model=rng.choice(nm or ["x"]), **kw)
        elif k == "vec" and dim > 1 and "ElementEdgeCouple" in ds.get_element_model_list(device=d, region=r):
            self.cmd(d, "vector_element_model", element_model=rng.choice(tm or ["ElementEdgeCouple"]), **kw)
        elif k == "elem" and dim > 1:
            tl = ds.get_element_model_list(device=d, region=r)
            x = rng.choice([n for n in tl if n.endswith("_x") or n == "T"] or ["ElementEdgeCouple"])
            self.cmd(d, "element_model", name="X", equation=rng.choice(["%s*3 + P" % x, "ElementNodeVolume/3 - %s" % x]), **dict(kw, **rng.choice([{}, {"display_type": "nodisplay"}])))
        elif k == "grad":
            self.cmd(d, "vector_gradient", node_model=rng.choice(nm or ["x"]), calc_type=rng.choice(["default", "avoidzero"]), **kw)
        elif k == "normal" and ifs and dim > 1:
            i = rng.choice(ifs)
            self.cmd(d, "interface_normal_model", interface=i, region=rng.choice(ds.get_region_list(device=d, interface=i)))
        elif k == "imodel" and ifs:
            i = rng.choice(ifs)
            n = rng.choice(["I", "I:U@r0", "J"])
            r0, r1 = ds.get_region_list(device=d, interface=i)
            u0, u1 = [rng.choice([a for a in ("U", "V") if a in self.kind[d][a_]] or ["x"]) for a_ in (r0, r1)]
            self.cmd(d, "interface_model", interface=i, name=n,
                     equation=rng.choice(["%s@r0-%s@r1" % (u0, u1), "x@r0*P", "%s@r1" % u1,
                                          "I*2" if n == "J" and "I" in ds.get_interface_model_list(device=d, interface=i) else "1", "%s@r0/3" % u0]))
        elif k == "cnode" and cons:
            c = rng.choice(cons)
            rr = ds.get_region_list(device=d, contact=c)[0]
            u = "U" if "U" in self.kind[d].get(rr, ()) else "x"
            self.cmd(d, "contact_node_model", contact=c, name="cn_" + c, equation=rng.choice(["%s-P" % u, "1", "%s/3" % u]))
        elif k == "cedge" and cons:
            c = rng.choice(cons)
            self.cmd(d, "contact_edge_model", contact=c, name="ce_" + c, equation=rng.choice(["EdgeLength/3", "P", "EdgeCouple"]))
        elif k == "cyl" and dim == 2:
            for n in ("cylindrical_edge_couple", "cylindrical_node_volume", "cylindrical_surface_area"):
                self.cmd(d, n, **kw)
        elif k == "eq" and nodes:
            o = {}
            for a, b in (("node_model", nm), ("edge_model", em), ("edge_volume_model", em), ("time_node_model", nm), ("volume_node0_model", tm), ("volume_node1_model", tm), ("element_model", tm)):
                if b and rng.random() < .5:
                    o[a] = rng.choice(b)
            self.cmd(d, "equation", name=rng.choice(["Q1", "Q2", "Qa q"]), variable_name=rng.choice(nodes),
                     variable_update=rng.choice(["default", "log_damp", "positive"]), **dict(kw, **o))
        elif k == "ceq" and cons:
            c = rng.choice(cons)
            o = {}
            for a in ("node_model", "edge_model", "node_charge_model", "node_current_model", "edge_current_model", "edge_charge_model", "edge_volume_model",
                      "element_charge_model", "element_current_model", "element_model", "volume_node0_model", "volume_node1_model"):
                if rng.random() < .3:
                    o[a] = rng.choice(["A", "M", "Fl", "X"])
            if rng.random() < .3:
                o["circuit_node"] = "N"
            self.cmd(d, "contact_equation", contact=c, name=rng.choice(["Q1", "Q2"]), **o)
        elif k == "ieq" and ifs:
            o = rng.choice([dict(name="Q1"), dict(name="Q2", name0="Q2", name1="Q1"), dict(name="Q1", name0="Q1", name1="Q1")])
            i = rng.choice(ifs)
            im = ds.get_interface_model_list(device=d, interface=i)
            self.cmd(d, "interface_equation", interface=i, interface_model=rng.choice(list(im) or ["I"]), type=rng.choice(["continuous", "fluxterm", "hybrid"]), **o)
        elif k == "cfi" and ifs:
            i = rng.choice(ifs)
            self.cmd(d, "create_contact_from_interface", name=rng.choice(["k0", "k1"]), interface=i, material="m2", region=rng.choice(ds.get_region_list(device=d, interface=i)))
        elif k == "ifn" and len(self.kind[d]) > 1:
            r0, r1 = rng.sample(sorted(self.kind[d]), 2)
            c0 = {int(c): j for j, c in enumerate(ds.get_node_model_values(device=d, region=r0, name="coordinate_index"))}
            both = [(c0[int(c)], j) for j, c in enumerate(ds.get_node_model_values(device=d, region=r1, name="coordinate_index")) if int(c) in c0]
            if both and "j0" not in ifs:
                if rng.random() < .4:
                    both = both[:max(1, len(both) // 2)]
                self.cmd(d, "create_interface_from_nodes", name="j0", region0=r0, region1=r1, nodes0=[p[0] for p in both], nodes1=[p[1] for p in both])
        elif k == "mat":
            if cons and rng.random() < .5:
                self.cmd(d, "set_material", contact=rng.choice(cons), material=rng.choice(["gold", "Poly Si"]))
            else:
                self.cmd(d, "set_material", material=rng.choice(["Ge", "Si O2"]), **kw)
        elif k == "del" and rng.random() < .5:
            self.cmd(d, "node_model", name="Dx", equation="x*3", **kw)
            if rng.random() < .6:
                self.cmd(d, "delete_node_model", name="Dx", **kw)
        elif k == "builtin" and rng.random() < .5:
            self.cmd(d, "node_model", name="NodeVolume", equation="x/3", **kw)

    def set(self, d, r, n, same=None):
        """New values for a solution."""
        rng = self.rng
        kind = self.kind[d][r][n]
        get = {"node": ds.get_node_model_values, "edge": ds.get_edge_model_values, "element": ds.get_element_model_values}[kind]
        put = {"node": ds.set_node_values, "edge": ds.set_edge_values, "element": ds.set_element_values}[kind]
        kw = dict(device=d, region=r, name=n)
        k = len(get(**kw))
        if same is not None:
            v = same
        elif rng.random() < .25:
            v = [rng.choice(AWKWARD)] * k
        else:
            v = [rng.choice(AWKWARD) if rng.random() < .5 else rng.uniform(-2, 2) for _ in range(k)]
        if kind == "node" and len(set(v)) == 1 and rng.random() < .7 and same is None:
            fn = lambda: ds.set_node_value(value=v[0], **kw)
        else:
            fn = lambda: put(values=v, **kw)
        self.do("set", fn, d=d, k="%s/%s/%s" % (kind, r, n), v=[x.hex() for x in v])
        return v

    # ---------------------------------------------------------------- looking
    def see(self, d):
        self.T.begin({"op": "see", "d": d})
        shape = lk.look(d, 1)
        for r in shape["regions"]:
            r["pts"] = 0
        vals, sols = {}, {}
        names = {}
        dim = shape["dim"]
        for r in shape["regions"]:
            rn = r["name"]
            kw = dict(device=d, region=rn)
            L = {"node": ds.get_node_model_list(**kw), "edge": ds.get_edge_model_list(**kw)}
            L["element"] = ds.get_element_model_list(**kw) if dim > 1 else []
            sol = self.kind[d][rn]
            for kind, g in (("node", ds.get_node_model_values), ("edge", ds.get_edge_model_values), ("element", ds.get_element_model_values)):
                for n in L[kind]:
                    try:
                        v = list(g(name=n, **kw))
                    except ds.error:
                        v = None
                    key = "%s/%s/%s" % (kind, rn, n)
                    if sol.get(n) == kind:
                        sols[key] = [x.hex() for x in v]
                    else:
                        vals[key] = [drv.BAD + 2] if v is None else [approx(x) for x in v]
            r["models"] = {k: sorted(v) for k, v in L.items()}
            r["eqs"] = [self.eq(ds.get_equation_command(name=n, **kw)) for n in sorted(ds.get_equation_list(**kw))]
        for c in shape["contacts"]:
            kw = dict(device=d, contact=c["name"])
            c["eqs"] = [self.eq(ds.get_contact_equation_command(name=n, **kw)) for n in sorted(ds.get_contact_equation_list(**kw))]
        for f in shape["interfaces"]:
            kw = dict(device=d, interface=f["name"])
            f["eqs"] = [self.eq(ds.get_interface_equation_command(name=n, **kw)) for n in sorted(ds.get_interface_equation_list(**kw))]
            f["models"] = sorted(ds.get_interface_model_list(**kw))
            for n in f["models"]:
                try:
                    v = list(ds.get_interface_model_values(name=n, **kw))
                except ds.error:
                    v = None
                vals["interface/%s/%s" % (f["name"], n)] = [drv.BAD + 2] if v is None else [approx(x) for x in v]
        self.T.emit(op="see", d=d, shape=json.dumps(shape, sort_keys=True), sols=sols, vals=vals)

    def eq(self, c):
        return {k: v for k, v in c.items() if k != "device"}

    def hand(self):
        """Two triangles which touch, written by hand with the points of each in any order."""
        rng = self.rng
        a, b = rng.sample([0, 1, 2], 3), rng.sample([1, 2, 3], 3)
        e = lambda q: "%d %d" % tuple(rng.sample([q.index(1), q.index(2)], 2))
        sec = lambda n, L: ["begin_" + n] + L + ["end_" + n, ""]
        reg = lambda n, q: ['begin_region "%s" "Si"' % n] + sec("nodes", [str(x) for x in q]) + sec("triangles", ["0 1 2"]) + ["end_region", ""]
        L = (['begin_device "hand"'] + sec("coordinates", ["0 0 0", "1 0 0", "0 1 0", "1 1 0"]) + reg("a", a) + reg("b", b)
             + ['begin_interface "i" "a" "b"'] + sec("edges", [e(a) + " " + e(b)]) + ["end_interface", "", "end_device", ""])
        with open(os.path.join(self.tmp, "hand"), "w") as f:
            f.write("\n".join(L))
        self.T.begin({"op": "hand"})
        ds.load_devices(file=os.path.join(self.tmp, "hand"))
        v = []
        for k in "01":
            ds.interface_model(device="hand", interface="i", name="q", equation="coordinate_index@r" + k)
            v.append([int(x) for x in ds.get_interface_model_values(device="hand", interface="i", name="q")])
        ds.delete_device(device="hand")
        ds.delete_mesh(mesh="hand")
        self.T.emit(op="hand", c0=v[0], c1=v[1])

    def lists(self):
        self.T.begin({"op": "lists"})
        self.T.emit(op="lists", devs=list(ds.get_device_list()), meshes=list(ds.get_mesh_list()))

    # ---------------------------------------------------------------- files
    def write(self, f, d=""):
        kw = {"device": d} if d else {}
        if self.rng.random() < .5:
            kw["type"] = "devsim"
        ok = self.do("write", lambda: ds.write_devices(file=f if f[0] == "/" else os.path.join(self.tmp, f), **kw), f=f, d=d, can="/" not in f)
        if ok:
            self.files[f] = {k: {r: dict(s) for r, s in v.items()} for k, v in self.kind.items() if not d or k == d}
        return ok

    def load(self, f):
        ok = self.do("load", lambda: ds.load_devices(file=os.path.join(self.tmp, f)), f=f)
        if ok:
            self.kind.update({k: {r: dict(s) for r, s in v.items()} for k, v in self.files[f].items()})
        return ok

    def spoil(self, f, g):
        """A damaged copy of a file"""
        rng = self.rng
        txt = open(os.path.join(self.tmp, f)).read()
        L = txt.split("\n")
        how = rng.choice(["half", "half", "line", "word", "empty", "count", "cmd", "twice"])
        ends = [k for k, x in enumerate(L) if x.startswith("end_")]
        if how == "half":           # cut somewhere before the last end_device
            txt = txt[:rng.randrange(1, txt.rindex("end_device") - 1)]
        elif how == "line":
            del L[rng.choice(ends)]
            txt = "\n".join(L)
        elif how == "word":
            L.insert(rng.randrange(len(L) - 4), "what")
            txt = "\n".join(L)
        elif how == "count":
            b = [k for k, x in enumerate(L) if x == "DATA"]
            if b:
                del L[rng.choice(b) + 1]
                txt = "\n".join(L)
            else:
                txt = "begin_device\n"
        elif how == "cmd":
            b = [k for k, x in enumerate(L) if x.startswith("COMMAND")]
            if b:
                k = rng.choice(b)
                L[k] = rng.choice([L[k].replace("-device", "-devise"), L[k] + " -extra 3", "COMMAND no_such_command"])
                txt = "\n".join(L)
            else:
                txt = "begin_device\n"
        elif how == "twice":
            txt = txt + txt
        else:
            txt = "begin_device \"q\"\nend_device\n"
        with open(os.path.join(self.tmp, g), "w") as o:
            o.write(txt)
        self.T.emit(op="spoil", f=g, how=how)


def history(w, nops):
    rng = w.rng
    w.reset()
    for _ in range(nops):
        d = rng.choice(["d", "e x"])
        if d not in w.kind:
            w.make(d)
        if d not in w.kind:
            continue
        for _ in range(rng.choice([4, 8, 16])):
            w.equip(d)
        w.see(d)
        k = rng.random()
        f = rng.choice(["f", "g"])
        some = {(a, r, n) for a in w.kind for r in w.kind[a] for n in w.kind[a][r]}
        moves = rng.sample(sorted(some), min(len(some), 2))
        tried = []
        if rng.random() < .7:       # how the device answers to new values, and back
            for m in moves:
                get = {"node": ds.get_node_model_values, "edge": ds.get_edge_model_values, "element": ds.get_element_model_values}[w.kind[m[0]][m[1]][m[2]]]
                old = list(get(device=m[0], region=m[1], name=m[2]))
                new = w.set(*m)
                w.see(m[0])
                w.set(*m, same=old)
                tried.append((m, new))
        w.write(f, rng.choice(["", "", d]))
        if rng.random() < .5:
            w.see(d)
        if rng.random() < .15:
            w.write(rng.choice(["none/x", "h", "/dev/full"]), rng.choice(["", d, "nothing"]))
        if rng.random() < .3:
            w.spoil(f, "h")
            if rng.random() < .5:
                w.fresh()
            w.load("h")
            w.lists()
            for a in sorted(w.kind):
                w.see(a)
        if rng.random() < .8:
            w.fresh()
        elif d in w.kind and rng.random() < .5:
            w.do("delete", lambda: ds.delete_device(device=d), d=d)
            del w.kind[d]
            if d in ds.get_mesh_list() and rng.random() < .8:
                w.do("delete_mesh", lambda: ds.delete_mesh(mesh=d), m=d)
        if rng.random() < .2:
            w.hand()
        if rng.random() < .1:
            w.load("missing")
        w.load(f)
        w.lists()
        for a in sorted(w.kind):
            w.see(a)
        for m, new in tried:
            if m[0] in w.kind and m[1] in w.kind[m[0]] and m[2] in w.kind[m[0]][m[1]]:
                w.set(*m, same=new)
                w.see(m[0])


def main(argv):
    seed, nh, nops = map(int, argv[1:])
    T = drv.Tracer()
    rng = random.Random(seed)
    with tempfile.TemporaryDirectory() as tmp:
        w = W(T, rng, tmp)
        for _ in range(nh):
            history(w, nops)


if __name__ == "__main__":
    drv.main(main)
