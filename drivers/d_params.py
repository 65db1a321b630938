"""Drives the parameter/material store; see spec/Params.tla.

args: random SEED NHIST NOPS | replay FILE
"""
import json
import random
import sys
import devsim as ds
from drv import Tracer, main

T = None
NAMES = ["p", "q", "r.x", "node_volume_model", "\u00e9ta", "p q", "3", "info", "P"]
DEVS = ["d1", "d2", "d1x", "r1"]
REGS = ["r1", "r2", "d1", "r1x"]
VALUES = [1, 2.5, -3, "abc", "1", "d1", 1e300, (1, 2), "x y", 0, "0"]


def canon(v):
    if isinstance(v, dict):
        return "dict"
    return "%s:%s" % (type(v).__name__, v)


def mesh(name, regs):
    """1D mesh whose i-th region spans [i, i+1]; contacts c0 at the left, c1 at the right end."""
    ds.create_1d_mesh(mesh=name)
    for i in range(len(regs) + 1):
        ds.add_1d_mesh_line(mesh=name, pos=float(i), ps=1.0, tag="t%d" % i)
    for i, (r, m) in enumerate(regs):
        ds.add_1d_region(mesh=name, material=m, region=r, tag1="t%d" % i, tag2="t%d" % (i + 1))
    ds.add_1d_contact(mesh=name, name="c0", tag="t0", material="metal")
    ds.add_1d_contact(mesh=name, name="c1", tag="t%d" % len(regs), material="alu")
    for i in range(1, len(regs)):
        ds.add_1d_interface(mesh=name, name="i%d" % i, tag="t%d" % i)
    ds.finalize_mesh(mesh=name)


def call(ev, fn, kw, val=False, lst=False):
    T.begin(dict(ev))
    try:
        r = getattr(ds, fn)(**kw)
        ev["ok"] = True
        if val:
            ev["val"] = canon(r)
        if lst:
            ev["lst"] = list(r)
    except ds.error as x:
        ev["ok"] = False
    T.emit(**ev)
    return ev["ok"]


class World:
    def __init__(self):
        self.meshes = {}

    def reset(self):
        ds.reset_devsim()
        self.meshes = {}
        T.emit(op="reset")

    def kw(self, **k):
        return {a: b for a, b in k.items() if b != ""}

    def mesh_for(self, regs):
        key = tuple(regs)
        if key not in self.meshes:
            n = "m%d" % len(self.meshes)
            mesh(n, [(r, "mat_" + r) for r in regs])
            self.meshes[key] = n
        return self.meshes[key]

    def do(self, o):
        op = o["op"]
        if op == "reset":
            self.reset()
        elif op == "create_device":
            regs = o["regs"] or ["r1"]
            m = self.mesh_for(regs)
            cons = {"c0": "metal", "c1": "alu"}
            call({"op": op, "device": o["device"], "regs": {r: "mat_" + r for r in regs}, "cons": cons},
                 "create_device", dict(mesh=m, device=o["device"]))
        elif op == "delete_device":
            call({"op": op, "device": o["device"]}, op, dict(device=o["device"]))
        elif op == "set_parameter":
            call({"op": op, "device": o["device"], "region": o["region"], "name": o["name"], "value": canon(o["value"])},
                 op, dict(self.kw(device=o["device"], region=o["region"]), name=o["name"], value=o["value"]))
        elif op == "get_parameter":
            call({"op": op, "device": o["device"], "region": o["region"], "name": o["name"]},
                 op, dict(self.kw(device=o["device"], region=o["region"]), name=o["name"]), val=True)
        elif op == "get_parameter_list":
            call({"op": op, "device": o["device"], "region": o["region"]},
                 op, self.kw(device=o["device"], region=o["region"]), lst=True)
        elif op == "set_material":
            call({"op": op, "device": o["device"], "region": o["region"], "contact": o["contact"], "material": o["material"]},
                 op, dict(self.kw(device=o["device"], region=o["region"], contact=o["contact"]), material=o["material"]))
        elif op == "get_material":
            ev = {"op": op, "device": o["device"], "region": o["region"], "contact": o["contact"]}
            T.begin(ev)
            try:
                ev["val"] = ds.get_material(**self.kw(device=o["device"], region=o["region"], contact=o["contact"]))
                ev["ok"] = True
            except ds.error:
                ev["ok"] = False
            T.emit(**ev)
        elif op == "get_device_list":
            call({"op": op}, op, {}, lst=True)
        else:
            raise RuntimeError(op)

    def dump(self, names):
        """Everything the store shows, through the public commands."""
        T.begin({"op": "dump"})
        dev, par, seen, unseen = {}, [], [], []
        try:
            scopes = [("", "")]
            for d in ds.get_device_list():
                regs = {r: ds.get_material(device=d, region=r) for r in ds.get_region_list(device=d)}
                cons = {c: ds.get_material(device=d, contact=c) for c in ds.get_contact_list(device=d)}
                dev[d] = {"regs": regs, "cons": cons}
                scopes += [(d, "")] + [(d, r) for r in regs]
            for d, r in scopes:
                k = self.kw(device=d, region=r)
                own = ds.get_parameter_list(**k)
                for n in own:
                    par.append([d, r, n, canon(ds.get_parameter(name=n, **k))])
                for n in names:
                    try:
                        seen.append([d, r, n, canon(ds.get_parameter(name=n, **k))])
                    except ds.error:
                        unseen.append([d, r, n])
        except ds.error as x:
            T.emit(op="dump_failed", why=str(x)[:300])
            return
        T.emit(op="dump", dev=dev, par=par, seen=seen, unseen=unseen)


def gen(rng, W):
    def d(pnone=0.25):
        return rng.choice(DEVS[:3]) if rng.random() > pnone else rng.choice(["", "", "nodev", "r1"])

    def r():
        return rng.choice(REGS[:3]) if rng.random() > 0.3 else rng.choice(["", "", "noreg", "r1x"])
    def n():
        return rng.choice(NAMES) if rng.random() > 0.03 else ""
    x = rng.random()
    if x < 0.14:
        k = rng.choice([1, 1, 2, 3])
        return {"op": "create_device", "device": d(0.1), "regs": rng.sample(REGS, k)}
    if x < 0.19:
        return {"op": "delete_device", "device": d(0.1)}
    if x < 0.55:
        return {"op": "set_parameter", "device": d(), "region": r(), "name": n(),
                "value": rng.choice(VALUES) if rng.random() > 0.04 else ""}
    if x < 0.78:
        return {"op": "get_parameter", "device": d(), "region": r(), "name": n()}
    if x < 0.84:
        return {"op": "get_parameter_list", "device": d(), "region": r()}
    c = rng.choice(["", "", "c0", "c1", "noc"])
    if x < 0.90:
        return {"op": "set_material", "device": d(0.1), "region": r() if rng.random() > .4 else "", "contact": c,
                "material": rng.choice(["Si", "Ox", "Al"]) if rng.random() > .05 else ""}
    if x < 0.97:
        return {"op": "get_material", "device": d(0.1), "region": r() if rng.random() > .4 else "", "contact": c}
    return {"op": "get_device_list"}


def from_spec(rec):
    """A command of a TLC behaviour of MCParams."""
    op, a = rec["op"], rec["args"]
    def val(s):
        t, v = s.split(":", 1)
        return int(v) if t == "int" else v
    if op == "create_device":
        return {"op": op, "device": a[0], "regs": sorted(rec["regs"])}
    if op == "delete_device":
        return {"op": op, "device": a[0]}
    if op == "set_parameter":
        return {"op": op, "device": a[0], "region": a[1], "name": a[2], "value": val(a[3])}
    if op == "get_parameter":
        return {"op": op, "device": a[0], "region": a[1], "name": a[2]}
    if op == "get_parameter_list":
        return {"op": op, "device": a[0], "region": a[1]}
    if op == "set_material":
        return {"op": op, "device": a[0], "region": a[1], "contact": a[2], "material": a[3]}
    if op == "get_material":
        return {"op": op, "device": a[0], "region": a[1], "contact": a[2]}
    return {"op": op}


def run(argv):
    global T
    T = Tracer()
    W = World()
    if argv[0] == "random":
        seed, nh, no = int(argv[1]), int(argv[2]), int(argv[3])
        rng = random.Random(seed)
        for h in range(nh):
            W.reset()
            if h % 3:
                W.do({"op": "create_device", "device": "d1", "regs": ["r1", "r2"]})
                W.do({"op": "create_device", "device": "d2", "regs": ["r1"]})
            for i in range(no):
                o = gen(rng, W)
                W.do(o)
                if rng.random() < 0.25 or i == no - 1:
                    W.dump(NAMES)
    else:
        first = True
        with open(argv[1]) as f:
            for line in f:
                rec = json.loads(line)
                if rec["op"] == "init":
                    W.reset()
                    continue
                W.do(from_spec(rec))
                W.dump(["p", "info"])


main(run)
