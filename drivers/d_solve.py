"""Drives solving: the drivers' own linear solver sees what is asked of it; see spec/Solve.tla.

args: newton|transient|linear|protocol SEED NHIST NOPS
"""
import array
import math
import random
import devsim as ds
from drv import Tracer, main
import d_models
import d_system
from d_models import res, resl
from d_system import Sys, VARS

CNODES = d_system.CNODES
UNIT = 1024
BIG = 1048576


def milli(x):
    try:
        return max(-2 ** 29, min(2 ** 29, round(x * UNIT)))
    except (ValueError, OverflowError):
        return 2 ** 29


def cap(x, s):
    try:
        return min(int(round(x * s)), BIG)
    except (ValueError, OverflowError):
        return BIG


class Solve(Sys):
    maxbits = 36
    names = ("direct", "direct")

    def reset(self):
        Sys.reset(self)
        self.ext = False
        self.area = {}

    def create(self, d, kind):
        Sys.create(self, d, kind)

    def solution(self, d, r, cls, n):
        Sys.solution(self, d, r, cls, n)
        D = self.defs.get((d, r), {})
        if n in D and n in VARS:
            D[n]["bits"] = 12

    def set_values(self, d, r, cls, n, vals):
        D = self.defs.get((d, r), {})
        old = D[n]["bits"] if n in D and "bits" in D[n] else 4
        Sys.set_values(self, d, r, cls, n, vals)
        if n in D and "bits" in D[n]:
            D[n]["bits"] = old

    # ---- what there is to see --------------------------------------------------------
    def numbers(self):
        num = {}
        for (d, r), q in self.eqs.items():
            for n in q:
                num.setdefault(d, {}).setdefault(r, {})[n] = [int(x) for x in ds.get_equation_numbers(device=d, region=r, equation=n)]
        cnum = {}
        for n in CNODES + ["a1", "a2", "0", "GND"] + [e + ".I" for e in self.el]:
            if not self.circ():
                break
            try:
                cnum[n] = int(ds.get_circuit_equation_number(node=n))
            except ds.error:
                pass
        return num, cnum

    def circ(self):
        return bool(self.cn or self.el or self.al)

    def now(self):
        out = {"dev": {}, "cir": {}}
        for (d, r), q in self.eqs.items():
            for e in q.values():
                v = ds.get_node_model_values(device=d, region=r, name=e["var"])
                out["dev"].setdefault(d, {}).setdefault(r, {})[e["var"]] = {
                    "v": resl(v), "a": [milli(x) for x in v], "pos": [x > 0 for x in v]}
        if self.circ():
            try:
                has = "dcop" in ds.get_circuit_solution_list()
            except ds.error:
                has = False
            for n in ds.get_circuit_node_list():
                v = ds.get_circuit_node_value(solution="dcop", node=n) if has else 0.0
                out["cir"][n] = {"v": res(v), "a": milli(v)}
        return out

    # ---- the solver ---------------------------------------------------------------------
    def fault(self, what):
        g = self.rng
        if what == "raise":
            raise RuntimeError("no")
        if what == "nodict":
            return 3
        if what == "nokey":
            return {"message": "x"} if g.random() < 0.5 else {"status": True}
        if what == "status":
            return {"status": False, "message": "singular", "solver_object": 1, "matrix_format": self.fmt, "x": [0.0]}

    def solver(self, action, **kw):
        T = d_models.T
        g = self.rng
        bad = self.plan.get(action) if self.plan.get("at", 0) <= self.turn else None
        if action == "init":
            num, cnum = self.numbers()
            ans = "bad" if bad else self.fmt
            T.emit(op="init", n=kw["n"], transpose=kw["transpose"], num=num, cnum=cnum, ans=ans)
            self.started = True
            if bad == "format":
                return {"status": True, "message": "", "matrix_format": "cxx", "solver_object": 1}
            if bad:
                return self.fault(bad)
            return {"status": True, "message": "", "matrix_format": self.fmt, "solver_object": {"s": 1}}
        if action == "factor":
            T.emit(op="look", now=self.now())
            self.loaded = True
            z = kw["is_complex"]
            a = list(kw["Ax"])
            m = {"ap": list(kw["Ap"]), "ai": list(kw["Ai"]), "re": resl(a[0::2] if z else a), "im": resl(a[1::2]) if z else []}
            self.owner = self.owner and kw["solver_object"] == {"s": 1}
            T.emit(op="factor", m=m, same=bool(kw["is_same_symbolic"]), complex=bool(z), ans=not bad, owner=self.owner)
            if bad:
                return self.fault("status" if bad in ("length", "nan") else bad)
            return {"status": True, "message": ""}
        z = kw["is_complex"]
        b = list(kw["b"])
        n = len(b) // (2 if z else 1)
        ev = {"op": "answer", "b": {"re": resl(b[0::2] if z else b), "im": resl(b[1::2]) if z else []}, "complex": bool(z), "ans": not bad, "x": {}}
        self.turn += 1
        if bad:
            T.emit(**ev)
            if bad == "length":
                return {"status": True, "message": "", "x": array.array("d", [0.0] * (n + g.choice([1, -1]) * (2 if z else 1)))}
            if bad == "nan":
                x = [g.randrange(-8, 9) / 4 for _ in range(len(b))]
                x[g.randrange(len(x))] = float("nan")
                return {"status": True, "message": "", "x": array.array("d", x)}
            return self.fault(bad)
        if z:
            x = [g.randrange(-8, 9) / 4 for _ in range(2 * n)]
            ev["x"] = {"re": resl(x[0::2]), "im": resl(x[1::2])}
        else:
            w = self.sizes[min(self.turn - 1, len(self.sizes) - 1)]
            x = [g.randrange(-w, w + 1) / 16 for _ in range(n)]
            if g.random() < 0.2 and w:
                x = [w / 16 if i == n // 2 else 0.0 for i in range(n)]
            ev["x"] = {"r": resl(x), "a": [int(v * UNIT) for v in x],
                       "d": [int(round(math.copysign(0.0259 * math.log1p(abs(v) / 0.0259), v) * UNIT)) for v in x]}
        T.emit(**ev)
        if not z and self.out and g.random() < 0.5:
            # the entries of a custom equation are others from here on
            k = g.choice(sorted(self.out))
            q, out = self.tables(n)
            self.out[k].update(out)
            T.emit(op="swap", name=k, eq=q)
        return {"status": True, "message": "", "x": array.array("d", x) if z or g.random() < 0.5 else x}

    # ---- solving --------------------------------------------------------------------------
    def exact(self):
        """Values of the unknowns back to what can be worked with."""
        g = self.rng
        for (d, r), q in sorted(self.eqs.items()):
            for e in q.values():
                v = e["var"]
                x = ds.get_node_model_values(device=d, region=r, name=v)
                if any(y * 16 != int(y * 16) or abs(y) > 24 for y in x):
                    self.set_values(d, r, "node", v, [g.randrange(1, 10) if e["upd"] == "positive" else g.randrange(-9, 10) for _ in x])
        if self.circ() and ds.get_circuit_node_list():
            for n in ds.get_circuit_node_list():
                try:
                    v = ds.get_circuit_node_value(solution="dcop", node=n)
                except ds.error:
                    break
                if abs(v) > 24:
                    w = g.randrange(-9, 10)
                    self.call({"op": "circuit_set", "sol": "dcop", "node": n, "val": res(w)}, "set_circuit_node_value", dict(solution="dcop", node=n, value=float(w)))

    def solve(self):
        g = self.rng
        if not any(self.eqs.values()) and not self.circ():
            return
        mode = self.mode
        pool = {"newton": ["dc"] * 6 + ["transient_dc"], "linear": ["ac", "noise"] * 3 + ["dc"],
                "transient": ["transient_dc"] * 2 + ["transient_bdf1", "transient_tr", "transient_bdf2"] * 3 + ["dc"],
                "protocol": ["dc"] * 3 + ["ac", "noise", "transient_dc", "transient_bdf1", "transient_tr", "transient_bdf2"]}[mode]
        if mode == "transient" and self.rng.random() < 0.9 and not self.started_steps:
            pool = ["transient_dc"]
        if mode == "protocol" and not self.started_steps and g.random() < 0.9:
            pool = pool[:6]
        kind = g.choice(pool)
        if g.random() < 0.01:
            kind = "acdc"
        kw = {"type": kind}
        o = {"type": kind, "solver": "direct", "out": "", "omega": 0, "order": sorted(self.dev), "tdelta": 0, "gamma": 1,
             "rel": 0, "abs": 0, "max": -1, "iters": 20, "div": 20, "sym": 1, "qerr": "exact", "info": False}
        if kind[:10] == "transient_" and kind != "transient_dc":
            t = g.choice([1, 2, 0.5, 4]) if g.random() < 0.97 else 0
            gm = g.choice([0.5, 2]) if kind == "transient_bdf2" else g.choice([1, 1, 1, 0.5, 2, 0.25])
            if g.random() < 0.02:
                gm = 0
            o["tdelta"], o["gamma"] = res(t), res(gm)
            kw["tdelta"] = float(t)
            if gm != 1 or g.random() < 0.5:
                kw["gamma"] = float(gm)
            q = g.choice(["any"] * 6 + ["exact", "never"])
            o["qerr"] = q
            kw["charge_error"] = {"any": g.choice([1.0, 2.0, 1e30]), "exact": 0.0, "never": -1.0}[q]
        lim = g.choice([(None, None), (256, 4096), (1024, 1024), (64, 512), (BIG, 2048), (4096, 64), (2048, 2048), (BIG, BIG)])
        if mode in ("transient", "protocol") and g.random() < 0.7:
            lim = (BIG, BIG)
        if lim[0] is not None:
            o["rel"], o["abs"] = lim
            kw["relative_error"] = lim[0] / 4096 if lim[0] < BIG else 1e12
            kw["absolute_error"] = lim[1] / UNIT if lim[1] < BIG else 1e12
        if o["rel"] == BIG:
            o["rel"] = 2 ** 30 + 1
        if o["abs"] == BIG:
            o["abs"] = 2 ** 30 + 1
        if g.random() < 0.25:
            o["max"] = g.choice([1024, 4096, 512])
            kw["maximum_error"] = o["max"] / UNIT
        o["iters"] = g.choice([1, 2, 3, 4, 6])
        kw["maximum_iterations"] = o["iters"]
        if g.random() < 0.4:
            o["div"] = g.choice([1, 2, 3])
            kw["maximum_divergence"] = o["div"]
        if g.random() < 0.4:
            o["sym"] = g.choice([0, 1, 2, 3])
            kw["symbolic_iteration_limit"] = o["sym"]
        if kind in ("ac", "noise"):
            w = 0 if self.ext else g.choice([0, 1, 2, 0.5, 3, 4])
            f = w / (2 * math.pi)
            if 2 * math.pi * f != w:
                w = f = 0
            o["omega"] = res(w)
            kw["frequency"] = f
        if kind == "noise":
            nodes = [n for n in ds.get_circuit_node_list()] if self.circ() else []
            if not nodes:
                return
            o["out"] = g.choice(nodes + (["nonode"] if g.random() < 0.03 else []))
            kw["output_node"] = o["out"]
        if g.random() < 0.5 and kind not in ("ac", "noise") or g.random() < 0.02:
            o["info"] = True
            kw["info"] = True
        if g.random() < 0.01:
            o["solver"] = "nosuch"
            kw["solver_type"] = "nosuch"
        self.fmt = g.choice(["csc", "csr"])
        self.turn = 0
        self.owner = True
        self.started = self.loaded = False
        self.plan = {}
        if g.random() < (0.6 if mode == "protocol" else 0.12):
            self.plan = {g.choice(["init", "factor", "solve", "solve", "factor"]): g.choice(["raise", "nodict", "nokey", "status", "length", "nan"]),
                         "at": g.choice([0, 0, 1, 2])}
            if "init" in self.plan:
                self.plan = {"init": g.choice(["raise", "nodict", "nokey", "status", "format"])}
        self.sizes = g.choice([[64, 32, 8, 1, 0], [16, 16, 16, 16], [0], [16, 8, 4, 2], [4, 8, 16, 32, 64], [32, 16, 0], [1, 0], [8, 1]])
        if mode == "transient":
            self.sizes = g.choice([[8], [16, 4], [4], [0]])
        d_models.T.emit(op="solve", o=o, now=self.now())
        fin = {"op": "finish", "info": []}
        try:
            r = ds.solve(**kw)
            if o["info"]:
                fin["ok"] = bool(r["converged"])
                fin["info"] = [self.report(r)]
            else:
                fin["ok"] = True
                if r is not None and r != "":
                    fin["extra"] = repr(r)
        except ds.error:
            fin["ok"] = False
        if fin["ok"]:
            d_models.T.emit(op="look", now=self.now())
        d_models.T.emit(**fin)
        d_models.T.emit(op="settled", now=self.now())
        # a system that cannot be put together is tried a second time, no more
        self.vain = 0 if self.loaded or self.plan else self.vain + 1
        if fin["ok"] and kind == "transient_dc":
            self.started_steps = True
        if fin["ok"] and kind in ("ac", "noise"):
            self.learn(kind, o["out"])
        self.exact()
        for k in range(g.randrange(3)):
            self.reading()

    def learn(self, kind, out):
        """The models a linear analysis leaves."""
        for (d, r), q in sorted(self.eqs.items()):
            for n, e in q.items():
                for s in (("_Real", "_Imag") if kind == "ac" else ("_real", "_imag")):
                    m = e["var"] + s if kind == "ac" else out + "_" + n + s
                    self.defs[(d, r)][m] = {"cls": "node", "kind": "sol", "bits": 4}
                    self.read(d, r, "node", m)
        for s in (("ssac_real", "ssac_imag") if kind == "ac" else ("noise_%s_real" % out, "noise_%s_imag" % out)):
            if self.circ():
                for n in ds.get_circuit_node_list():
                    self.circuit_value(s, n)

    def circuit_value(self, s, n):
        ev = {"op": "circuit_get", "sol": s, "node": n}
        d_models.T.begin(ev)
        try:
            ev["vals"] = [res(ds.get_circuit_node_value(solution=s, node=n))]
            ev["ok"] = True
        except ds.error:
            ev["ok"] = False
        d_models.T.emit(**ev)

    def report(self, r):
        def both(x):
            return {"rel": cap(x["relative_error"], 4096), "abs": cap(x["absolute_error"], UNIT)}
        its = []
        for it in r["iterations"]:
            its.append({"iteration": it["iteration"],
                        "devs": [dict(both(d), name=d["name"],
                                      regs=[dict(both(g), name=g["name"], eqs=[dict(both(e), name=e["name"], reln=e["relative_error_node"], absn=e["absolute_error_node"]) for e in g["equations"]])
                                            for g in d["regions"]]) for d in it["devices"]],
                        "cir": [both(it["circuit"])] if "circuit" in it else []})
        return {"n": r["number_of_equations"], "its": its}

    def reading(self):
        g = self.rng
        keys = sorted((d, c, n) for (d, c), q in self.ceqs.items() for n in q)
        if not keys:
            return
        d, c, n = g.choice(keys)
        if g.random() < 0.03:
            n = "E9"
        w = g.choice(["cur", "chg"])
        ev = {"op": "reading", "device": d, "contact": c, "name": n, "what": w}
        d_models.T.begin(ev)
        try:
            ev["vals"] = [res({"cur": ds.get_contact_current, "chg": ds.get_contact_charge}[w](device=d, contact=c, equation=n))]
            ev["ok"] = True
        except ds.error:
            ev["ok"] = False
        d_models.T.emit(**ev)

    def initial_condition(self):
        g = self.rng
        n = self.order()
        k = n + (g.choice([-1, 1]) if g.random() < 0.1 else 0)
        a = [g.randrange(-9, 10) for _ in range(n)]
        b = [g.randrange(-9, 10) for _ in range(k)]
        if n == 0:
            return
        ev = {"op": "initial_condition", "i": resl(a), "q": resl(b)}
        if self.call(ev, "set_initial_condition", dict(static_rhs=[float(x) for x in a], dynamic_rhs=[float(x) for x in b])):
            self.started_steps = True

    def change(self):
        g = self.rng
        x = g.random()
        if x < 0.06:
            if self.mode == "transient" or g.random() < 0.3:
                self.initial_condition()
        elif x < 0.09:
            self.ext = not self.ext
            ds.set_parameter(name="extended_solver", value=self.ext)
            if g.random() < 0.5:
                ds.set_parameter(name="extended_model", value=self.ext)
                ds.set_parameter(name="extended_equation", value=self.ext)
            d_models.T.emit(op="precision", to=self.ext)
            self.started_steps = False
        elif x < 0.3:
            for (d, r) in sorted(self.defs):
                for v in VARS:
                    self.set_values(d, r, "node", v, [g.randrange(1, 10) if g.random() < 0.9 else g.randrange(-9, 10) for _ in range(self.size[(d, r)]["node"])])
        elif x < 0.36:
            self.reading()
        else:
            Sys.change(self)

    def some(self, d, r, cls, miss=0.002):
        return Sys.some(self, d, r, cls, min(miss, 0.002))

    def contact_name(self, d, r):
        have = sorted(self.eqs.get((d, r), {}))
        return self.rng.choice(have) if have and self.rng.random() < 0.98 else Sys.contact_name(self, d, r)

    def contact_node(self):
        have = sorted(self.cn) + sorted(self.al)
        return self.rng.choice(have) if have and self.rng.random() < 0.97 else Sys.contact_node(self)

    def setup_region(self, d, r):
        Sys.setup_region(self, d, r)
        g = self.rng
        for n in VARS:
            if g.random() < 0.8:
                self.set_values(d, r, "node", n, [g.randrange(1, 10) for _ in range(self.size[(d, r)]["node"])])

    def history(self, nops):
        g = self.rng
        self.reset()
        self.started_steps = False
        self.vain = 0
        self.spent += 3
        ds.set_parameter(name="direct_solver", value="custom")
        ds.set_parameter(name="solver_callback", value=lambda **kw: self.solver(**kw))
        self.setpar("", "", "p", 2)
        if self.mode == "linear" or g.random() < 0.6:
            for n in CNODES[:g.randrange(1, 4)]:
                if self.call({"op": "circuit_node", "name": n}, "add_circuit_node", dict(name=n)):
                    self.cn.add(n)
            for _ in range(g.randrange(6)):
                self.circuit_op()
        kinds = g.choice([["1s"], ["1s"], ["1d"], ["1d"], ["2s"], ["2d"], ["1s", "1d"], ["1d", "1s"]])
        if self.mode != "newton" and g.random() < 0.7:
            kinds = g.choice([["1s"], ["1d"]])
        for i, k in enumerate(kinds):
            self.create("d%d" % i, k)
        for (d, r) in sorted(self.defs):
            self.setup_region(d, r)
            for _ in range(3):
                if g.random() < 0.8:
                    self.new_equation(d, r)
        for d in self.dev:
            for r in [k[1] for k in self.defs if k[0] == d]:
                if not self.defs[(d, r)].get("SurfaceArea", {}).get("small") or any(k[0] == d for k in self.area):
                    if "w_area" not in self.defs[(d, r)]:
                        self.solution(d, r, "node", "w_area")
                        self.set_values(d, r, "node", "w_area", [g.choice([1, 2, 3]) for _ in range(self.size[(d, r)]["node"])])
                    self.weight(d, r, "area", "w_area")
            for c in sorted(self.dev[d]["cons"]):
                if g.random() < 0.7:
                    self.new_contact_equation(d, c)
            for i in sorted(self.dev[d]["ifs"]):
                if g.random() < 0.8:
                    self.new_interface(d, i)
        if self.mode in ("newton", "protocol") and g.random() < 0.5:
            self.custom()
        self.solve()
        for k in range(nops):
            self.spent += 1
            if not self.dev or self.vain >= 2:
                break
            if g.random() < 0.5:
                self.solve()
            else:
                self.change()

    # the circuit is either there from the start or never spoken of
    def circuit_op(self):
        if self.circ():
            Sys.circuit_op(self)
            if not self.circ():
                # deleted: and made again at once
                n = CNODES[0]
                if self.call({"op": "circuit_node", "name": n}, "add_circuit_node", dict(name=n)):
                    self.cn.add(n)

    def known_circuit(self):
        return self.circ()

    def contact_equation(self, d, c, n, q):
        if not self.circ():
            q = dict(q, circuit="")
        Sys.contact_equation(self, d, c, n, q)


def run(argv):
    d_models.T = Tracer()
    seed, nh, nops = map(int, argv[1:4])
    w = Solve.__new__(Solve)
    w.rng = random.Random(0)
    w.mode = argv[0]
    w.spent = h = 0
    while w.spent < nh * (nops + 3):
        w.rng = random.Random(seed * 100003 + h)
        w.history(nops)
        h += 1


if __name__ == "__main__":
    main(run)
