"""Histories of imported meshes."""
import itertools
import os
import random
import tempfile

import devsim as ds
import drv
import look as lk

Q = 4096          # places are whole numbers times the scale, told in Q-ths


# ---------------------------------------------------------------- meshes of simplices
def line_mesh(rng):
    n = rng.choice([3, 4, 5, 6])
    pts, x = [], rng.randrange(-5, 5)
    for _ in range(n):
        pts.append([x, 0, 0])
        x += rng.choice([1, 1, 2, 5])
    return 1, pts, [[k, k + 1] for k in range(n - 1)]


def flat_mesh(rng):
    nx, ny = rng.choice([(2, 1), (3, 1), (2, 2), (3, 2), (1, 3)])
    pts, at = [], {}
    for i in range(nx + 1):
        for j in range(ny + 1):
            at[i, j] = len(pts)
            pts.append([4 * i + rng.choice([0, 0, 1]), 4 * j + rng.choice([0, 0, -1]), 0])
    tri = []
    for i in range(nx):
        for j in range(ny):
            a, b, c, d = at[i, j], at[i + 1, j], at[i + 1, j + 1], at[i, j + 1]
            tri += [[a, b, c], [a, c, d]] if rng.random() < .5 else [[a, b, d], [b, c, d]]
    return 2, pts, tri


def solid_mesh(rng):
    nx, ny, nz = rng.choice([(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2)])
    pts, at = [], {}
    for i in range(nx + 1):
        for j in range(ny + 1):
            for k in range(nz + 1):
                at[i, j, k] = len(pts)
                pts.append([2 * i, 2 * j, 3 * k])
    tet = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                for p in itertools.permutations(range(3)):
                    c = [i, j, k]
                    t = [at[tuple(c)]]
                    for d in p:
                        c[d] += 1
                        t.append(at[tuple(c)])
                    tet.append(t)
    return 3, pts, tet


def mesh(rng, dim=None):
    """dimension, points, parts of the body, facets of each part, and between parts"""
    d, pts, top = rng.choice([line_mesh, flat_mesh, flat_mesh, solid_mesh])(rng) if not dim else (None, line_mesh, flat_mesh, solid_mesh)[dim](rng)
    nparts = rng.choice([1, 2, 2, 3])
    ax = rng.randrange(d)
    key = lambda t: sum(pts[p][ax] for p in t)
    if rng.random() < .7:
        top.sort(key=key)
        cut = sorted(rng.sample(range(1, len(top)), min(nparts - 1, len(top) - 1)))
        parts = [top[a:b] for a, b in zip([0] + cut, cut + [len(top)])]
    else:
        parts = [[] for _ in range(nparts)]
        for t in top:
            rng.choice(parts).append(t)
        parts = [p for p in parts if p]
    facets = []
    for p in parts:
        f = {}
        for t in p:
            for s in itertools.combinations(sorted(t), d):
                f[s] = f.get(s, 0) + 1
        facets.append({s for s, n in f.items() if n == 1})
    return d, pts, parts, facets


class M:
    def __init__(self, T, rng, tmp):
        self.T, self.rng, self.tmp = T, rng, tmp
        self.scale = 1.0
        self.ms, self.dv = {}, {}

    def do(self, op, fn, **ev):
        self.T.begin(dict(ev, op=op))
        try:
            fn()
            ok = True
        except ds.error:
            ok = False
        self.T.emit(op=op, ok=ok, **ev)
        return ok

    def reset(self):
        self.T.begin({"op": "reset"})
        ds.reset_devsim()
        self.scale = self.rng.choice([1.0, 2.0 ** -13, 2.0 ** -20, 4.0])
        self.ms, self.dv = {}, {}
        self.T.emit(op="reset")

    # points: [[id, x, y, z]]; names of groups; elements [group, nodes]
    def create(self, m, coords, names, elements, broken=None):
        rng = self.rng
        tell = dict(m=m, file=False, broken=bool(broken), names=names,
                    coords=[{"id": c[0], "at": [v * Q for v in c[1:]]} for c in coords],
                    elements=[{"group": g, "nodes": n} for g, n in elements])
        flat = []
        for g, n in elements:
            flat += [len(n) - 1, g] + n
        xyz = [v * self.scale for c in coords for v in c[1:]]
        if broken == "short":
            flat.pop()
        elif broken == "type":
            flat[0] = 4 + rng.randrange(3)
        elif broken == "xyz":
            xyz.pop()
        elif broken == "long":
            flat.append(1)
        ok = self.do("create", lambda: ds.create_gmsh_mesh(mesh=m, coordinates=xyz, physical_names=names, elements=flat), **tell)
        if ok:
            self.ms[m] = False
        return ok

    def create_file(self, m, coords, names, elements, broken=None):
        """names: (dimension, number) -> name or None, elements (dimension, number, nodes)"""
        rng = self.rng
        keys = sorted({(len(n) - 1, g) for g, n in elements})
        called = [names.get(k) or str(k[1]) for k in keys]
        tell = dict(m=m, file=True, broken=bool(broken), names=called,
                    coords=[{"id": c[0], "at": [v * Q for v in c[1:]]} for c in coords],
                    elements=[{"group": keys.index((len(n) - 1, g)), "nodes": n} for g, n in elements])
        L = ["$MeshFormat", rng.choice(["2.2 0 8", "2.1 0 8"]) if broken != "format" else "4.1 0 8", "$EndMeshFormat"]
        pn = [(k, v) for k, v in names.items() if v]
        if pn:
            L += ["$PhysicalNames", str(len(pn))] + ['%d %d "%s"' % (k[0], k[1], v) for k, v in pn] + ["$EndPhysicalNames"]
        L += ["$Nodes", str(len(coords))]
        for c in coords:
            L.append("%d %s" % (c[0], " ".join(rng.choice([repr, lambda v: "%.17e" % v])(v * self.scale) for v in c[1:])))
        L += ["$EndNodes", "$Elements", str(len(elements))]
        typ = [15, 1, 2, 4]
        for k, (g, n) in enumerate(elements):
            tags = [g] + [rng.randrange(1, 9) for _ in range(rng.choice([0, 1, 1, 2]))]
            L.append(" ".join(str(x) for x in [k + 1, typ[len(n) - 1], len(tags)] + tags + n))
        L.append("$EndElements")
        if broken == "line":
            L[-2] += " 3"
        elif broken == "type":
            L.insert(len(L) - 1, "99 3 2 1 1 1 2 3 4")
        elif broken == "junk":
            L.insert(len(L) - 1, "what")
        elif broken == "node":
            L.insert(L.index("$EndNodes"), "7 1.0 2.0")
        elif broken == "zero":
            L.insert(L.index("$EndNodes"), "0 1.0 2.0 0.0")
        elif broken == "number":
            L.insert(len(L) - 1, "99 15 2 0 1 %d" % coords[0][0])
        path = os.path.join(self.tmp, "mesh.msh")
        with open(path, "w") as f:
            f.write("\n".join(L) + "\n")
        if broken == "missing":
            path += "x"
        ok = self.do("create", lambda: ds.create_gmsh_mesh(mesh=m, file=path), **tell)
        if ok:
            self.ms[m] = False
        return ok

    def region(self, m, g, name, mat):
        self.do("region", lambda: ds.add_gmsh_region(mesh=m, gmsh_name=g, region=name, material=mat), m=m, g=g, name=name, mat=mat)

    def contact(self, m, g, name, r, mat):
        self.do("contact", lambda: ds.add_gmsh_contact(mesh=m, gmsh_name=g, name=name, region=r, material=mat), m=m, g=g, name=name, r=r, mat=mat)

    def interface(self, m, g, name, r0, r1):
        self.do("interface", lambda: ds.add_gmsh_interface(mesh=m, gmsh_name=g, name=name, region0=r0, region1=r1), m=m, g=g, name=name, r0=r0, r1=r1)

    def misfit(self, m):
        r = self.rng.randrange(4)
        f = [lambda: ds.add_1d_mesh_line(mesh=m, pos=0.0, ps=1.0, tag="q"),
             lambda: ds.add_2d_region(mesh=m, region="a", material="Si"),
             lambda: ds.add_1d_contact(mesh=m, name="c", tag="q", material="Si"),
             lambda: ds.create_gmsh_mesh(mesh=m + "9", coordinates=[0.0, 0.0, 0.0])][r]
        self.do("misfit", f, m=m, kind=r)

    def finalize(self, m):
        return self.do("finalize", lambda: ds.finalize_mesh(mesh=m), m=m)

    def look(self, d):
        o = lk.look(d, Q / self.scale, False)
        return o

    def device(self, m, d):
        self.T.begin({"op": "device", "m": m, "d": d})
        o = 0
        try:
            ds.create_device(mesh=m, device=d)
            ok = True
        except ds.error:
            ok = False
        if ok:
            o = self.look(d)
            self.dv[d] = o
        self.T.emit(op="device", m=m, d=d, ok=ok, look=o)
        return ok

    def lists(self):
        self.T.begin({"op": "lists"})
        self.T.emit(op="lists", meshes=list(ds.get_mesh_list()), devs=list(ds.get_device_list()))

    def see(self, d):
        self.T.begin({"op": "look", "d": d})
        self.T.emit(op="look", d=d, look=self.look(d))

    def from_nodes(self, d, name, r0, r1, n0, n1):
        return self.do("from_nodes", lambda: ds.create_interface_from_nodes(device=d, name=name, region0=r0, region1=r1, nodes0=n0, nodes1=n1),
                       d=d, name=name, r0=r0, r1=r1, n0=n0, n1=n1)

    def from_interface(self, d, name, r, f, mat):
        return self.do("from_interface", lambda: ds.create_contact_from_interface(device=d, name=name, region=r, interface=f, material=mat),
                       d=d, name=name, r=r, f=f, mat=mat)


def history(w, nops):
    rng = w.rng
    w.reset()
    for _ in range(nops):
        m = rng.choice(["m", "n"])
        if m in w.ms and rng.random() < .8:
            if w.do("delete_mesh", lambda: ds.delete_mesh(mesh=m), m=m):
                del w.ms[m]
        dim, pts, parts, facets = mesh(rng)
        file = rng.random() < .4
        # numbers of the points
        n = len(pts)
        ids = list(range(n))
        if file:
            ids = rng.sample(range(1, 3 * n), n) if rng.random() < .5 else list(range(1, n + 1))
        coords = [[ids[k]] + pts[k] for k in range(n)]
        if file:
            if rng.random() < .5:
                rng.shuffle(coords)
        if rng.random() < .2:
            coords.append([max(ids) + 1, 50, 50, 0])        # belongs to nothing
        # groups: name -> list of tuples
        gr = []
        for k, p in enumerate(parts):
            if len(p) > 1 and rng.random() < .3:            # a part in two groups, perhaps sharing an element
                c = rng.randrange(1, len(p))
                gr.append(["p%d" % k, p[:c + rng.choice([0, 1])]])
                gr.append(["q%d" % k, p[c:]])
            else:
                gr.append(["p%d" % k, p])
        if rng.random() < .1 and dim > 1:
            gr.append(["stray", [rng.choice(sorted(facets[0]))]])
        cons, ifs, regs = [], [], []
        for k in range(len(parts)):
            rn = "r%d" % k if rng.random() < .9 or len(parts) == 1 else "r0"
            for g, _ in gr:
                if g in ("p%d" % k, "q%d" % k):
                    regs.append([g, rn, rng.choice(["Si", "Ox"])])
        rname = {r[0][1:]: r[1] for r in regs}
        for k in range(rng.choice([0, 1, 2, 3])):
            p = rng.randrange(len(parts))
            outer = sorted(facets[p] - set().union(*(facets[j] for j in range(len(parts)) if j != p))) or sorted(facets[p])
            some = rng.sample(outer, min(len(outer), rng.choice([1, 1, 2, 3])))
            kind = rng.random()
            if kind < .25 and dim > 1:     # told by points only
                some = sorted({(q,) for s in some for q in s})
            elif kind < .35 and dim == 3:
                some = sorted({e for s in some for e in itertools.combinations(s, 2)})
            elif kind < .4:
                some = [rng.choice(sorted(facets[rng.randrange(len(parts))]))]
            gr.append(["g%d" % k, some])
            cons.append(["g%d" % k, "c%d" % (k if rng.random() < .9 else 0), rname[str(p)], rng.choice(["metal", "poly"])])
        for a, b in itertools.combinations(range(len(parts)), 2):
            both = sorted(facets[a] & facets[b])
            if both and rng.random() < .8:
                some = rng.sample(both, rng.randrange(1, len(both) + 1)) if rng.random() < .6 else both
                if rng.random() < .2 and dim > 1:
                    some = sorted({(q,) for s in some for q in s})
                gr.append(["s%d%d" % (a, b), some])
                x, y = rng.choice([(a, b), (b, a)])
                ifs.append(["s%d%d" % (a, b), "i%d%d" % (a, b), rname[str(x)], rname[str(y)]])
        wrong = rng.choice([None] * 8 + ["cregion", "iregion", "group", "top", "mixed", "point", "dims", "contact"])
        if wrong == "cregion" and cons:
            cons[0][2] = rng.choice(["r9"] + list(rname.values()))
        elif wrong == "iregion" and ifs:
            ifs[0][rng.choice([2, 3])] = rng.choice(["r9"] + list(rname.values()))
        elif wrong == "group":
            rng.choice(cons + ifs + regs)[0] = "nothing"
        elif wrong == "top" and cons:
            cons[0][0] = "p0"
        elif wrong == "mixed":
            rng.choice(gr)[1].append((0,) if rng.random() < .5 else (0, 1))
        elif wrong == "point":
            g = rng.choice(gr)
            t = list(g[1][0])
            t[-1] = n + 7
            g[1] = list(g[1]) + [t]
            ids += [9000] * 8
        elif wrong == "dims":
            gr.append([gr[0][0], [(0,)]])
        elif wrong == "contact" and cons:
            g = [x for x in gr if x[0] == cons[0][0]][0]
            g[1] = list(g[1]) + [tuple(rng.sample(range(n), len(g[1][0])))]
        # as told
        gr = [g for g in gr if g[1]]
        elements = []
        broken = rng.choice([None] * 9 + [1])
        if file:
            num, names, k = {}, {}, 0
            for g in gr:
                # numbers are counted for each dimension, some names are left out
                key = (len(g[1][0]) - 1, rng.randrange(1, 4))
                while key in names:
                    key = (key[0], key[1] + 1)
                names[key] = g[0]
                for t in g[1]:
                    tt = list(t)
                    rng.shuffle(tt)
                    elements.append([key[1], [ids[p] for p in tt]])
                    if (len(tt) - 1, key[1]) not in names:
                        names[len(tt) - 1, key[1]] = None
            if broken:
                broken = rng.choice(["format", "line", "type", "junk", "node", "zero", "number", "missing"])
        else:
            if rng.random() < .5:
                rng.shuffle(gr)
            names = [g[0] for g in gr]
            for k, g in enumerate(gr):
                for t in g[1]:
                    tt = list(t)
                    rng.shuffle(tt)
                    elements.append([k, [ids[p] for p in tt]])
            if rng.random() < .03:
                names.append("empty")
            if rng.random() < .03:
                elements[-1][0] += rng.choice([1, 2])
            if broken:
                broken = rng.choice(["short", "type", "xyz", "long"])
        if rng.random() < .3:
            elements.append([elements[0][0], list(reversed(elements[0][1]))])       # told twice
        if rng.random() < .5:
            rng.shuffle(elements)
        args = (m, coords, names, elements)
        made = (w.create_file if file else w.create)(*args, broken)
        if not made and rng.random() < .8 and m not in w.ms:
            made = (w.create_file if file else w.create)(*args)
        w.lists()
        todo = [("region", r) for r in regs] + [("contact", c) for c in cons] + [("interface", f) for f in ifs]
        rng.shuffle(todo)
        if rng.random() < .1 and todo:
            todo.append((todo[0][0], todo[0][1][:-1] + [""]))
        for k, a in todo:
            getattr(w, k)(m, *a)
            if rng.random() < .03:
                w.misfit(m)
        if w.finalize(m):
            w.ms[m] = True
        elif rng.random() < .3:
            w.finalize(m)
        if rng.random() < .1:
            w.region(m, "p0", "late", "Si")
        for d in rng.sample(["d", "e"], rng.choice([1, 1, 2])):
            if d in w.dv and rng.random() < .8:
                if w.do("delete_device", lambda: ds.delete_device(device=d), d=d):
                    del w.dv[d]
            w.device(m, d)
        w.lists()
        for d in sorted(w.dv):
            if rng.random() < .5:
                continue
            o = w.dv[d]
            R = {r["name"]: r for r in o["regions"]}
            for _ in range(rng.choice([1, 2, 3])):
                if rng.random() < .5 and len(R) > 1:
                    r0, r1 = rng.sample(sorted(R), 2)
                    k0, k1 = len(R[r0]["index"]), len(R[r1]["index"])
                    k = rng.choice([1, 2, 3, 4])
                    c0 = {c: i for i, c in enumerate(R[r0]["coord"])}
                    both = [(c0[c], i) for i, c in enumerate(R[r1]["coord"]) if c in c0]
                    if both and rng.random() < .6:
                        prs = rng.sample(both, min(len(both), k))
                        n0, n1 = [p[0] for p in prs], [p[1] for p in prs]
                    elif k0 and k1:
                        n0 = [rng.randrange(k0) for _ in range(k)]
                        n1 = [rng.randrange(k1) for _ in range(k)]
                    else:
                        n0, n1 = [0], [0]
                    if rng.random() < .1:
                        n0 = rng.choice([n0 + [0], n0[:-1], n0[:-1] + [k0], n0[:-1] + [k0 + 100]])
                    w.from_nodes(d, rng.choice(["j0", "j1", "i01", ""]), r0, r1, n0, n1)
                else:
                    f = rng.choice(list(ds.get_interface_list(device=d)) + ["i01", "j0"])
                    w.from_interface(d, rng.choice(["k0", "k1", "c0"]), rng.choice(sorted(R) + ["r0"]), f, rng.choice(["m1", "m2", "m3", ""]))
            w.see(d)


def main(argv):
    seed, nh, nops = map(int, argv[1:])
    T = drv.Tracer()
    rng = random.Random(seed)
    with tempfile.TemporaryDirectory() as tmp:
        w = M(T, rng, tmp)
        for _ in range(nh):
            history(w, nops)


if __name__ == "__main__":
    drv.main(main)
