"""Histories of two-dimensional meshes."""
import random

import devsim as ds
import drv
import look as lk

Q = 16384
UNIT = 4 * Q      # positions are multiples of a quarter of the scale
FAR = 2 ** 28


class M:
    def __init__(self, T, rng):
        self.T, self.rng = T, rng
        self.scale = 1.0
        self.ms, self.dv = {}, {}

    def do(self, op, fn, **ev):
        self.T.begin(dict(ev, op=op))
        try:
            fn()
            ok = True
        except ds.error:
            ok = False
        self.T.emit(op=op, ok=ok, **ev)
        return ok

    def reset(self):
        self.T.begin({"op": "reset"})
        ds.reset_devsim()
        self.scale = self.rng.choice([1.0, 1.0, 2.0 ** -14, 2.0 ** 8, 2.0 ** -17])
        self.ms, self.dv = {}, {}
        self.T.emit(op="reset")

    def create(self, m):
        if self.do("create", lambda: ds.create_2d_mesh(mesh=m), m=m):
            self.ms[m] = False

    def line(self, m, d, pos, ps, ns=None):
        kw = dict(mesh=m, dir=d, pos=pos * self.scale, ps=ps * self.scale)
        if ns is not None:
            kw["ns"] = ns * self.scale
        self.do("line", lambda: ds.add_2d_mesh_line(**kw), m=m, dir=d,
                line={"pos": int(pos * UNIT), "ps": int(ps * UNIT), "ns": int((ns or 0) * UNIT)})

    def box(self, b):
        """b: dict of the sides given, in units; the rest is left to the defaults"""
        kw = {k: v * self.scale for k, v in b.items()}
        if "bl" in kw:
            kw["bloat"] = kw.pop("bl")
        enc = {k: int(b[k] * UNIT) if k in b else (-FAR if k[1] == "l" else FAR) for k in ("xl", "xh", "yl", "yh")}
        enc["bl"] = int(b.get("bl", 0) * UNIT)
        return kw, enc

    def region(self, m, name, mat, b):
        kw, box = self.box(b)
        self.do("region", lambda: ds.add_2d_region(mesh=m, region=name, material=mat, **kw), m=m, name=name, mat=mat, box=box)

    def contact(self, m, name, mat, r, b):
        kw, box = self.box(b)
        self.do("contact", lambda: ds.add_2d_contact(mesh=m, name=name, material=mat, region=r, **kw), m=m, name=name, mat=mat, r=r, box=box)

    def interface(self, m, name, r0, r1, b):
        kw, box = self.box(b)
        self.do("interface", lambda: ds.add_2d_interface(mesh=m, name=name, region0=r0, region1=r1, **kw), m=m, name=name, r0=r0, r1=r1, box=box)

    def misfit(self, m):
        r = self.rng.randrange(5)
        f = [lambda: ds.add_1d_mesh_line(mesh=m, pos=0.0, ps=1.0, tag="q"),
             lambda: ds.add_1d_region(mesh=m, region="a", material="Si", tag1="q", tag2="r"),
             lambda: ds.add_1d_contact(mesh=m, name="c", tag="q", material="Si"),
             lambda: ds.add_1d_interface(mesh=m, name="i", tag="q"),
             lambda: ds.add_gmsh_region(mesh=m, gmsh_name="g", region="a", material="Si")][r]
        self.do("misfit", f, m=m, kind=r)

    def finalize(self, m):
        return self.do("finalize", lambda: ds.finalize_mesh(mesh=m), m=m)

    def look(self, d):
        return lk.look(d, UNIT / self.scale)

    def device(self, m, d):
        self.T.begin({"op": "device", "m": m, "d": d})
        o = 0
        try:
            ds.create_device(mesh=m, device=d)
            ok = True
        except ds.error:
            ok = False
        if ok:
            o = self.look(d)
            self.dv[d] = m
        self.T.emit(op="device", m=m, d=d, ok=ok, look=o)

    def lists(self):
        self.T.begin({"op": "lists"})
        self.T.emit(op="lists", meshes=list(ds.get_mesh_list()), devs=list(ds.get_device_list()))

    def looks(self):
        for d in sorted(self.dv):
            self.T.begin({"op": "look", "d": d})
            self.T.emit(op="look", d=d, look=self.look(d))


def axis(rng, graded):
    """lines of one direction, and the positions worth naming in boxes"""
    pos = rng.randrange(-8, 9) / 4
    lines = []
    cells = 0
    for k in range(rng.choice([2, 2, 3, 3, 4])):
        lines.append([pos, 8, None])
        gap = rng.choice([1, 1, 2, 3, .5, .75])
        if graded and k and rng.random() < .5:
            gap = 1.75
        pos += gap
    for a, b in zip(lines, lines[1:]):
        gap = b[0] - a[0]
        if gap == 1.75:
            a[1] = .25      # .25 .5 1
            b[2] = 1
        else:
            n = rng.choice([1, 1, 3 if gap == .75 else 2])
            a[1] = gap / n
            b[2] = gap / n
    for l in lines:
        if l[2] is None:
            l[2] = rng.choice([None, 8])
    return lines


def span(rng, ps, full=.4):
    r = rng.random()
    if r < full:
        return {}
    a, b = sorted(rng.choice(ps) for _ in range(2)) if rng.random() < .5 else (rng.choice([ps[0], ps[0] - 1]), rng.choice(ps))
    if rng.random() < .5 and r > .7:
        a, b = rng.choice(ps), ps[-1] + rng.choice([0, 1])
    out = {"l": a, "h": b}
    if rng.random() < .15:
        out["l"], out["h"] = b, a
    if rng.random() < .15:
        del out[rng.choice("lh")]
    return out


def mkbox(rng, xs, ys, exact, full=.4, thin=False):
    b = {}
    pick = rng.choice("xy")
    for d, ps in (("x", xs), ("y", ys)):
        s = span(rng, ps, full)
        if thin and d == pick:
            v = rng.choice(ps)
            s = {"l": v, "h": v}
        for k, v in s.items():
            b[d + k] = v
    if exact and rng.random() < .25:
        b["bl"] = rng.choice([1, 3, 5, 9]) / 8
    return b


def history(w, nops):
    rng = w.rng
    w.reset()
    nl = 0
    while nl < nops:
        m = rng.choice(["m", "n"])
        if m not in w.ms or rng.random() < .1:
            w.create(m)
        elif rng.random() < .15:
            if w.do("delete_mesh", lambda: ds.delete_mesh(mesh=m), m=m):
                del w.ms[m]
                w.create(m)
        exact = rng.random() < .7
        wrong = rng.choice([None] * 7 + ["few", "dup", "cname", "iname", "rname", "noreg"])
        xl, yl = axis(rng, not exact), axis(rng, not exact)
        xs, ys = [l[0] for l in xl], [l[0] for l in yl]
        if rng.random() < .3:
            xs.append(xs[0] + rng.choice([.25, .5, 1]))
            xs.sort()
        names = ["a", "b", "c"][:rng.choice([1, 2, 2, 2, 3, 3])]
        regs = []
        for k, n in enumerate(names):
            regs.append([n, "mat%d" % k, mkbox(rng, xs, ys, exact, .7 if k == 0 else .4)])
        if rng.random() < .3:       # one more box for a region there is
            regs.append([rng.choice(names), "other", mkbox(rng, xs, ys, exact)])
        if rng.random() < .4:       # the usual way: something all around
            regs.insert(0, ["air", "gas", {}])
            names = ["air"] + names
        cons, ifs = [], []
        for k in range(rng.choice([0, 1, 1, 2, 3])):
            cons.append(["c%d" % k, rng.choice(["metal", "ohm"]), rng.choice(names), mkbox(rng, xs, ys, exact, .5, rng.random() < .7)])
        for k in range(rng.choice([0, 1, 1, 2])):
            if len(names) > 1:
                r0, r1 = rng.sample(names, 2)
                ifs.append(["i%d" % k, r0, r1, mkbox(rng, xs, ys, exact, .8)])
        if wrong == "cname" and cons:
            cons.append([cons[0][0], "else", rng.choice(names), mkbox(rng, xs, ys, exact, .5, True)])
        elif wrong == "iname" and ifs:
            ifs.append([ifs[0][0]] + rng.sample(names, 2) + [mkbox(rng, xs, ys, exact)])
            if rng.random() < .5:
                ifs[-1][2] = ifs[-1][1]
        elif wrong == "rname":
            if cons and rng.random() < .5:
                rng.choice(cons)[2] = "nowhere"
            elif ifs:
                rng.choice(ifs)[rng.choice([1, 2])] = "nowhere"
        elif wrong == "few":
            l = rng.choice([xl, yl])
            del l[1:]
            if rng.random() < .5:
                l.append(list(l[0]))
        elif wrong == "dup":
            l = rng.choice([xl, yl])
            l.append(list(rng.choice(l)))
        elif wrong == "noreg":
            regs = [] if rng.random() < .5 else [["a", "Si", {"xl": xs[-1] + 2, "xh": xs[-1] + 3}]]
        lines = [("line", ["x"] + l) for l in xl] + [("line", ["y"] + l) for l in yl]
        if rng.random() < .5:
            rng.shuffle(lines)
        rest = [("region", r) for r in regs] + [("contact", c) for c in cons] + [("interface", f) for f in ifs]
        if rng.random() < .3:
            rng.shuffle(rest)
        todo = lines + rest
        if rng.random() < .3:
            rng.shuffle(todo)
        held = []
        if rng.random() < .2:
            some = [t for t in todo if not exact or t[0] != "line"]
            held = rng.sample(some, min(len(some), rng.choice([1, 1, 3])))
            todo = [t for t in todo if not any(t is h for h in held)]
        done = w.ms.get(m)
        for part in (todo, held):
            for k, a in part:
                getattr(w, k)(m, *a)
                if rng.random() < .03:
                    w.misfit(m)
                if rng.random() < .02:
                    getattr(w, k)("nomesh", *a)
                nl += 1
            if part is todo and held:
                w.ms[m] = w.finalize(m) or w.ms[m]
        w.ms[m] = w.finalize(m) or w.ms[m]
        if rng.random() < .1:
            w.finalize(m)
        if rng.random() < .2:
            w.line(m, "x", 100, rng.choice([1, 0, -1]))
            w.line(m, rng.choice(["z", "", "X"]), 100, 1)
            w.region(m, rng.choice(["late", ""]), "Si", {})
            w.contact(m, "late", rng.choice(["", "Si"]), rng.choice(["", "a"]), {})
            w.interface(m, "late", "a", rng.choice(["a", "b"]), {})
        for d in rng.sample(["d", "e", "f"], rng.choice([1, 1, 2])):
            w.device(m, d)
        if rng.random() < .3 and w.dv:
            d = rng.choice(sorted(w.dv))
            if w.do("delete_device", lambda: ds.delete_device(device=d), d=d):
                del w.dv[d]
        w.lists()
        if rng.random() < .4:
            w.looks()
        if not w.ms[m] or rng.random() < .7:
            if w.do("delete_mesh", lambda: ds.delete_mesh(mesh=m), m=m):
                del w.ms[m]
            if rng.random() < .4:
                w.looks()


def main(argv):
    seed, nh, nops = map(int, argv[1:])
    T = drv.Tracer()
    rng = random.Random(seed)
    w = M(T, rng)
    for _ in range(nh):
        history(w, nops)


drv.main(main)
