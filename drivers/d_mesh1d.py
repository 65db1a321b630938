"""Histories of one-dimensional meshes."""
import random
import sys

import devsim as ds
import drv
import look as lk

Q = 16384
UNIT = 4 * Q      # positions are multiples of a quarter of the scale


class M:
    def __init__(self, T, rng):
        self.T, self.rng = T, rng
        self.scale = 1.0
        self.ms, self.dv = {}, {}

    def do(self, op, fn, **ev):
        self.T.begin(dict(ev, op=op))
        try:
            fn()
            ok = True
        except ds.error:
            ok = False
        self.T.emit(op=op, ok=ok, **ev)
        return ok

    def reset(self):
        self.T.begin({"op": "reset"})
        ds.reset_devsim()
        self.scale = self.rng.choice([1.0, 1.0, 2.0 ** -14, 2.0 ** 8, 2.0 ** -17])
        self.ms, self.dv = {}, {}
        self.T.emit(op="reset")

    def create(self, m):
        if self.do("create", lambda: ds.create_1d_mesh(mesh=m), m=m):
            self.ms[m] = []

    def line(self, m, pos, ps, ns=None, tag=""):
        kw = dict(mesh=m, pos=pos * self.scale, ps=ps * self.scale)
        if ns is not None:
            kw["ns"] = ns * self.scale
        if tag:
            kw["tag"] = tag
        self.do("line", lambda: ds.add_1d_mesh_line(**kw), m=m,
                line={"pos": int(pos * UNIT), "ps": int(ps * UNIT), "ns": int((ns or 0) * UNIT), "tag": tag})

    def region(self, m, name, mat, t1, t2):
        self.do("region", lambda: ds.add_1d_region(mesh=m, region=name, material=mat, tag1=t1, tag2=t2), m=m,
                region={"name": name, "mat": mat, "t1": t1, "t2": t2})

    def contact(self, m, name, mat, tag):
        self.do("contact", lambda: ds.add_1d_contact(mesh=m, name=name, material=mat, tag=tag), m=m,
                contact={"name": name, "mat": mat, "tag": tag})

    def interface(self, m, name, tag):
        self.do("interface", lambda: ds.add_1d_interface(mesh=m, name=name, tag=tag), m=m,
                interface={"name": name, "tag": tag})

    def misfit(self, m):
        r = self.rng.randrange(5)
        f = [lambda: ds.add_2d_mesh_line(mesh=m, dir="x", pos=0.0, ps=1.0),
             lambda: ds.add_2d_region(mesh=m, region="a", material="Si"),
             lambda: ds.add_2d_contact(mesh=m, name="c", region="a", material="Si"),
             lambda: ds.add_2d_interface(mesh=m, name="i", region0="a", region1="b"),
             lambda: ds.add_gmsh_region(mesh=m, gmsh_name="g", region="a", material="Si")][r]
        self.do("misfit", f, m=m, kind=r)

    def finalize(self, m):
        return self.do("finalize", lambda: ds.finalize_mesh(mesh=m), m=m)

    def look(self, d):
        return lk.look(d, UNIT / self.scale)

    def device(self, m, d):
        self.T.begin({"op": "device", "m": m, "d": d})
        o = 0
        try:
            ds.create_device(mesh=m, device=d)
            ok = True
        except ds.error:
            ok = False
        if ok:
            o = self.look(d)
            self.dv[d] = m
        self.T.emit(op="device", m=m, d=d, ok=ok, look=o)

    def lists(self):
        self.T.begin({"op": "lists"})
        self.T.emit(op="lists", meshes=list(ds.get_mesh_list()), devs=list(ds.get_device_list()))

    def looks(self):
        for d in sorted(self.dv):
            self.T.begin({"op": "look", "d": d})
            self.T.emit(op="look", d=d, look=self.look(d))


SP = [.25, .5, .75, 1, 1.5, 2, 3, 4]


def history(w, nops):
    rng = w.rng
    w.reset()
    nl = 0
    while nl < nops:
        m = rng.choice(["m", "n"])
        if m not in w.ms or rng.random() < .1:
            w.create(m)
        elif rng.random() < .15:
            if w.do("delete_mesh", lambda: ds.delete_mesh(mesh=m), m=m):
                del w.ms[m]
                w.create(m)
        nl += 1
        # a description, right or with one thing wrong
        wrong = rng.choice([None] * 6 + ["dup", "tag", "notag", "contact", "ncontact", "iface", "noiface", "gap", "overlap", "names", "cnames", "few", "ends"])
        nreg = rng.choice([1, 1, 2, 2, 3])
        pos = rng.randrange(-8, 9) / 4
        lines = []          # pos, ps, ns, tag
        for k in range(nreg + 1):
            lines.append([pos, rng.choice(SP), rng.choice(SP + [None]), "t%d" % k])
            if k < nreg:
                for _ in range(rng.choice([0, 0, 0, 1, 2])):
                    pos += rng.choice([.5, 1, 1.5, 2, 3, 5])
                    lines.append([pos, rng.choice(SP), rng.choice(SP + [None]), rng.choice(["", "", "u%d" % len(lines)])])
                pos += rng.choice([.25, .5, 1, 1.75, 2, 3, 3.5, 5, 7])
        if rng.random() < .4:          # a graded section that just fits
            s, r, n = rng.choice([.25, .5, .75, 1]), rng.choice([2, 1.5, 3, 1.25]), rng.choice([2, 3])
            sp = [s * r ** j for j in range(n)]
            if all(x * 4 == int(x * 4) for x in sp):
                lines.append([lines[-1][0] + sum(sp), 1, sp[-1], lines[-1][3]])
                lines[-2][1], lines[-2][3] = s, ""
        regs = [["r%d" % k, "mat%d" % rng.randrange(3), "t%d" % k, "t%d" % (k + 1)] for k in range(nreg)]
        for r in regs:
            if rng.random() < .3:
                r[2], r[3] = r[3], r[2]
        cons = [["left", "metal", "t0"], ["right", "ohm", "t%d" % nreg]]
        ifs = [["i%d" % k, "t%d" % k] for k in range(1, nreg)]
        rng.shuffle(regs)
        rng.shuffle(cons)
        rng.shuffle(ifs)
        if wrong == "dup":
            lines.append(list(rng.choice(lines)))
            if rng.random() < .5:
                lines[-1][3] = ""
        elif wrong == "tag":
            rng.choice(lines)[3] = rng.choice(lines)[3]
        elif wrong == "notag":
            rng.choice(lines)[3] = ""
        elif wrong == "contact":
            rng.choice(cons)[2] = rng.choice(["t1", "t0", "zz", ""])
        elif wrong == "ncontact":
            cons = rng.choice([cons[:1], cons + [["third", "metal", "t1"]], []])
        elif wrong == "iface":
            ifs.append(["x", rng.choice([l[3] for l in lines if l[3]] + ["zz"])])
        elif wrong == "noiface" and ifs:
            ifs.pop()
        elif wrong == "gap" and nreg > 1:
            regs.pop()
        elif wrong == "overlap":
            regs.append(["rx", "Si", rng.choice(["t0", "t1"]), rng.choice(["t1", "t%d" % nreg])])
        elif wrong == "names" and nreg > 1:
            regs[0][0] = regs[1][0]
        elif wrong == "cnames":
            cons[0][0] = cons[1][0]
        elif wrong == "few":
            lines = lines[:1]
        elif wrong == "ends":
            lines.insert(rng.choice([0, len(lines)]), [rng.choice([lines[0][0] - 1, lines[-1][0] + 1]), 1, 1, ""])
        if rng.random() < .5:
            rng.shuffle(lines)
        todo = [("line", l) for l in lines] + [("region", r) for r in regs] + [("contact", c) for c in cons] + [("interface", f) for f in ifs]
        if rng.random() < .3:
            rng.shuffle(todo)
        held = []
        if rng.random() < .2:           # finalized too early once
            held = [todo.pop(rng.randrange(len(todo))) for _ in range(min(len(todo), rng.choice([1, 1, 2])))]
        for part in (todo, held):
            for k, a in part:
                getattr(w, k)(m, *a)
                if rng.random() < .03:
                    w.misfit(m)
                if rng.random() < .03:
                    getattr(w, k)("nomesh", *a)
                nl += 1
            if part is todo and not held:
                continue
            ok = w.finalize(m)
            w.ms[m] = ok
        if not w.ms[m]:
            w.ms[m] = w.finalize(m)
        if rng.random() < .1:
            w.finalize(m)
        if rng.random() < .2:
            w.line(m, 100, rng.choice([1, 0, -1]))
            w.region(m, "late", "Si", "t0", "t1")
            w.contact(m, "late", "", "t0")
            w.interface(m, "", "t0")
        for d in rng.sample(["d", "e", "f"], rng.choice([1, 2])):
            w.device(m, d)
        if rng.random() < .3 and w.dv:
            d = rng.choice(sorted(w.dv))
            if w.do("delete_device", lambda: ds.delete_device(device=d), d=d):
                del w.dv[d]
        w.lists()
        w.looks()
        if not w.ms[m] or rng.random() < .6:
            if w.do("delete_mesh", lambda: ds.delete_mesh(mesh=m), m=m):
                del w.ms[m]
            w.looks()


def main(argv):
    seed, nh, nops = map(int, argv[1:])
    T = drv.Tracer()
    rng = random.Random(seed)
    w = M(T, rng)
    for _ in range(nh):
        history(w, nops)


drv.main(main)
