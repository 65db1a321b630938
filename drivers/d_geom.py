"""Meshes and all that their geometric models tell."""
import itertools
import random
from fractions import Fraction

import devsim as ds
import drv
import look as lk

P = 46337
FIX = 100000


def res(v):
    """A fraction modulo P; -1 for what is none."""
    v = float(v)
    if not abs(v) < 1e9:
        return -1
    f = Fraction(v).limit_denominator(1000000)
    if abs(f - Fraction(v)) > 3e-13 * max(1, abs(v)) or f.denominator % P == 0:
        return -1
    return f.numerator * pow(f.denominator, -1, P) % P


def fix(v, s=FIX):
    return int(round(v * s)) if abs(v) < 10000 else drv.BAD


def whole(v):
    v = float(v)
    return int(round(v)) if abs(v) < 1e8 and abs(v - round(v)) < 1e-7 else drv.BAD


# ---------------------------------------------------------------- meshes
def line(rng):
    n = rng.choice([2, 3, 4, 5])
    pts, x = [], rng.randrange(-5, 5)
    for _ in range(n):
        pts.append([x, 0, 0])
        x += rng.choice([1, 1, 2, 5])
    top = [[k, k + 1] for k in range(n - 1)]
    if rng.random() < .25:          # branches
        pts.append([x + 3, 0, 0])
        top.append([rng.randrange(n - 1), n])
    return 1, pts, top


def flat(rng):
    how = rng.choice(["any", "any", "root", "right", "few"])
    if how == "few":
        while True:
            pts = [[rng.randrange(0, 9), rng.randrange(0, 9), 0] for _ in range(4)]
            a, b, c, d = pts
            s = lambda p, q, r: (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
            if s(a, b, c) * s(a, b, d) < 0:
                return 2, pts, [[0, 1, 2], [1, 0, 3]]
    if how == "root":               # triangles with sides of 5, 5 and 6
        n = rng.choice([1, 2, 3, 4])
        pts, top = [], []
        for k in range(n + 2):
            pts.append([3 * k, 4 * (k % 2), 0])
        top = [[k, k + 1, k + 2] for k in range(n)]
        if rng.random() < .5:
            pts.append([3, -4, 0])
            if n >= 1:
                top.append([0, 2, len(pts) - 1])
        return 2, pts, top
    nx, ny = rng.choice([(1, 1), (2, 1), (3, 1), (2, 2), (1, 3)])
    dx, dy = rng.choice([(3, 4), (5, 12), (6, 8), (8, 6)]) if how == "right" else (4, 4)
    j = [0] if how == "right" else [0, 0, 1]
    pts, at = [], {}
    for i in range(nx + 1):
        for k in range(ny + 1):
            at[i, k] = len(pts)
            pts.append([dx * i + rng.choice(j), dy * k - rng.choice(j), 0])
    tri = []
    for i in range(nx):
        for k in range(ny):
            a, b, c, d = at[i, k], at[i + 1, k], at[i + 1, k + 1], at[i, k + 1]
            tri += [[a, b, c], [a, c, d]] if rng.random() < .5 else [[a, b, d], [b, c, d]]
    return 2, pts, tri


def solid(rng):
    how = rng.choice(["boxes", "boxes", "five", "two"])
    if how == "two":
        while True:
            pts = [[rng.randrange(0, 3) for _ in range(3)] for _ in range(5)]

            def vol(a, b, c, d):
                u, v, w = ([pts[q][k] - pts[a][k] for k in range(3)] for q in (b, c, d))
                return u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])
            if vol(0, 1, 2, 3) * vol(0, 1, 2, 4) < 0:
                return 3, pts, rng.choice([[[0, 1, 2, 3], [0, 1, 2, 4]], [[0, 1, 2, 3]]])
    nx, ny, nz = rng.choice([(1, 1, 1), (1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2)])
    steps = [rng.choice([1, 2, 3]) for _ in range(3)]
    pts, at = [], {}
    shear = rng.choice([0, 0, 1]) if how == "boxes" else 0
    for i in range(nx + 1):
        for j in range(ny + 1):
            for k in range(nz + 1):
                at[i, j, k] = len(pts)
                pts.append([steps[0] * i + shear * j, steps[1] * j, steps[2] * k])
    tet = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                if how == "five":
                    q = lambda a, b, c: at[i + (a ^ (i & 1)), j + (b ^ (j & 1)), k + (c ^ (k & 1))]
                    tet.append([q(0, 0, 0), q(1, 1, 0), q(1, 0, 1), q(0, 1, 1)])
                    for o, n in (((1, 0, 0), ((0, 0, 0), (1, 1, 0), (1, 0, 1))), ((0, 1, 0), ((0, 0, 0), (1, 1, 0), (0, 1, 1))),
                                 ((0, 0, 1), ((0, 0, 0), (1, 0, 1), (0, 1, 1))), ((1, 1, 1), ((1, 1, 0), (1, 0, 1), (0, 1, 1)))):
                        tet.append([q(*o)] + [q(*x) for x in n])
                    continue
                for p in itertools.permutations(range(3)):
                    c = [i, j, k]
                    t = [at[tuple(c)]]
                    for d in p:
                        c[d] += 1
                        t.append(at[tuple(c)])
                    tet.append(t)
    return 3, pts, tet


def build(rng, dev, scale):
    dim, pts, top = rng.choice([line, flat, flat, flat, solid, solid])(rng)
    if rng.random() < .5:           # other names for the points
        q = rng.sample(range(len(pts)), len(pts))
        pts = [pts[q.index(k)] for k in range(len(pts))]
        top = [[q[n] for n in t] for t in top]
    top = [rng.sample(t, len(t)) for t in top]
    parts = [top]
    if len(top) > 1 and rng.random() < .5:
        rng.shuffle(top)
        c = rng.randrange(1, len(top))
        parts = [top[:c], top[c:]]
    fac = []
    for p in parts:
        f = {}
        for t in p:
            for s in itertools.combinations(sorted(t), dim):
                f[s] = f.get(s, 0) + 1
        fac.append({s for s, n in f.items() if n == 1})
    groups = [["p%d" % k, p] for k, p in enumerate(parts)]
    cons, ifs = [], []
    for k in range(rng.choice([0, 1, 2, 3])):
        p = rng.randrange(len(parts))
        f = sorted(fac[p])
        groups.append(["g%d" % k, rng.sample(f, min(len(f), rng.choice([1, 2, 3, 9])))])
        cons.append(("g%d" % k, "c%d" % k, "r%d" % p))
    if len(parts) == 2:
        both = sorted(fac[0] & fac[1])
        if both and rng.random() < .8:
            groups.append(["s", both if rng.random() < .5 else rng.sample(both, rng.randrange(1, len(both) + 1))])
            ifs.append(("s", "i", *rng.choice([("r0", "r1"), ("r1", "r0")])))
    flatten = []
    for k, (_, els) in enumerate(groups):
        for t in els:
            flatten += [len(t) - 1, k] + [int(n) for n in t]
    ds.create_gmsh_mesh(mesh="m", coordinates=[v * scale for p in pts for v in p], physical_names=[x[0] for x in groups], elements=flatten)
    for k in range(len(parts)):
        ds.add_gmsh_region(mesh="m", gmsh_name="p%d" % k, region="r%d" % k, material="Si")
    for a, b, c in cons:
        ds.add_gmsh_contact(mesh="m", gmsh_name=a, name=b, region=c, material="metal")
    for a, b, c, d in ifs:
        ds.add_gmsh_interface(mesh="m", gmsh_name=a, name=b, region0=c, region1=d)
    ds.finalize_mesh(mesh="m")
    ds.create_device(mesh="m", device=dev)
    return dim


class G:
    def __init__(self, T, rng, dev, region, dim, scale):
        self.T, self.rng, self.dim, self.scale = T, rng, dim, scale
        self.kw = dict(device=dev, region=region)
        self.dev, self.region = dev, region
        self.n = 0

    def em(self, name):
        return ds.get_edge_model_values(name=name, **self.kw)

    def nm(self, name):
        return ds.get_node_model_values(name=name, **self.kw)

    def el(self, name):
        v = ds.get_element_model_values(name=name, **self.kw)
        w = len(v) // self.nt
        return [v[w * t:w * t + w] for t in range(self.nt)]

    def name(self):
        self.n += 1
        return "f%d" % self.n

    def mesh(self):
        look = lk.look(self.dev, 1.0 / self.scale, False)
        r = next(x for x in look["regions"] if x["name"] == self.region)
        con = [f for c in look["contacts"] if c["region"] == self.region for f in c["elems"]]
        ifs = []
        for x in look["interfaces"]:
            if x["r0"] == self.region:
                ifs += x["e0"]
            if x["r1"] == self.region:
                ifs += x["e1"]
        at = lambda name, l: [ds.get_node_model_values(device=self.dev, region=name, name="x")[n] for n in l]
        cx = {v for c in look["contacts"] for v in at(c["region"], c["nodes"])}
        ix = {v for x in look["interfaces"] for v in at(x["r0"], x["n0"]) + at(x["r1"], x["n1"])}
        xs = self.nm("x")
        self.edges, self.np, self.nt = r["edges"], len(r["pts"]), len(r["elems"])
        self.T.emit(op="mesh", dim=self.dim, pts=r["pts"], elems=r["elems"], edges=r["edges"], contact=con, interface=ifs,
                    cnodes=[c["nodes"] for c in look["contacts"] if c["region"] == self.region],
                    cnear=[n for n, v in enumerate(xs) if v in cx], inear=[n for n, v in enumerate(xs) if v in ix])
        if self.dim > 1:
            ds.element_from_node_model(node_model="node_index", **self.kw)
            e = [self.el("node_index@en%d" % k) for k in range(self.dim + 1)]
            self.ends = [[[int(x[t][j]) for x in e] for j in range(len(e[0][t]))] for t in range(self.nt)]
            self.T.emit(op="ends", ends=self.ends)

    def lengths(self):
        L = self.em("EdgeLength")
        u = [self.em("unit" + c) for c in "xyz"[:self.dim]] + [[0.0] * len(L)] * (3 - self.dim)
        inv = self.em("EdgeInverseLength")
        s = self.scale
        self.T.emit(op="lengths", len2=[whole((v / s) ** 2) for v in L], inv=[res(a * b) for a, b in zip(L, inv)],
                    unit=[[whole(v * l / s) for v in d] for l, d in zip(L, zip(*u))], index=[whole(v) for v in self.em("edge_index")])

    def volumes(self):
        d, s = self.dim, self.scale
        ev = dict(cf=[fix(v / s ** (d - 1)) for v in self.em("EdgeCouple")], vf=[fix(v / s ** d) for v in self.em("EdgeNodeVolume")],
                  nv=[fix(v / s ** d) for v in self.nm("NodeVolume")])
        if d > 1:
            c, v = self.el("ElementEdgeCouple"), self.el("ElementNodeVolume")
            L = {frozenset(e): l / s for e, l in zip(self.edges, self.em("EdgeLength"))}
            ev.update(c=[[res(x / s ** (d - 1) * L[frozenset(y[:2])]) for x, y in zip(a, b)] for a, b in zip(c, self.ends)],
                      v=[[res(2 * d * x / s ** d) for x in a] for a in v],
                      ecf=[[fix(x / s ** (d - 1)) for x in a] for a in c], evf=[[fix(x / s ** d) for x in a] for a in v])
        self.T.emit(op="volumes", **ev)

    def areas(self):
        q = self.scale ** (self.dim - 1)
        self.T.emit(op="areas", sa=[fix(v / q, 1000) for v in self.nm("SurfaceArea")], ca=[fix(v / q, 1000) for v in self.nm("ContactSurfaceArea")],
                    at=[whole(v) for v in self.nm("AtContactNode")])

    def turned(self):
        self.T.emit(op="turned", list=[[int(n) for n in t] for t in ds.get_element_node_list(reorder=True, **self.kw)])

    def solution(self, name, vals):
        ds.node_solution(name=name, **self.kw)
        ds.set_node_values(name=name, values=[float(v) for v in vals], **self.kw)

    def average(self):
        rng, kw = self.rng, self.kw
        typ = rng.choice(["arithmetic", "geometric", "gradient", "negative_gradient", "ends"])
        sq = rng.random() < .5 or typ == "geometric"
        t, s, e = self.name(), self.name(), self.name()
        vals = [rng.randrange(1, 30) if typ == "geometric" or rng.random() < .8 else rng.randrange(-30, 0) for _ in range(self.np)]
        self.solution(t, vals)
        if sq:
            ds.node_model(name=s, equation="%s^2" % t, **kw)
            ds.node_model(name=s + ":" + t, equation="2*%s" % t, **kw)
        else:
            s = t
        if typ == "ends":
            ds.edge_from_node_model(node_model=s, **kw)
        else:
            ds.edge_average_model(node_model=s, edge_model=e, average_type=typ, **kw)
        L = [v / self.scale for v in self.em("EdgeLength")] if "gradient" in typ else None
        sc = lambda v: [res(x * (self.scale * l if L else 1)) for x, l in zip(v, L or v)]
        if typ == "ends":
            self.T.emit(op="average", type=typ, t=vals, sq=sq, deriv="no", got=sc(self.em(s + "@n0")), got1=sc(self.em(s + "@n1")))
            if sq:
                ds.edge_from_node_model(node_model=s + ":" + t, **kw)
                self.T.emit(op="average", type=typ, t=vals, sq=sq, deriv="chain", got=sc(self.em("%s:%s@n0" % (s, t))), got1=sc(self.em("%s:%s@n1" % (s, t))))
            return
        self.T.emit(op="average", type=typ, t=vals, sq=sq, deriv="no", got=sc(self.em(e)), got1=[])
        for w in [s] + ([t] if sq else []):
            ds.edge_average_model(node_model=s, edge_model=e, average_type=typ, derivative=w, **kw)
            self.T.emit(op="average", type=typ, t=vals, sq=sq, deriv="chain" if w != s else "self",
                        got=sc(self.em("%s:%s@n0" % (e, w))), got1=sc(self.em("%s:%s@n1" % (e, w))))

    def data(self):
        rng, n = self.rng, len(self.edges)
        if rng.random() < .3:       # a constant field
            f = [rng.randrange(-4, 5) for _ in range(3)]
            pts = list(zip(*[[whole(v / self.scale) for v in self.nm(c)] for c in "xyz"]))
            return [sum(f[c] * (pts[b][c] - pts[a][c]) for c in range(self.dim)) for a, b in self.edges]
        return [rng.randrange(-9, 10) for _ in range(n)]

    def edge_data(self, name, k):
        """an edge model with k over the length"""
        ds.edge_solution(name=name + "s", **self.kw)
        self.set_edges(name, k)
        ds.edge_model(name=name, equation="%ss*EdgeInverseLength" % name, **self.kw)

    def set_edges(self, name, k):
        ds.set_edge_values(name=name + "s", values=[float(v) for v in k], **self.kw)

    def vec(self, name, suffix=""):
        c = [self.el("%s_%s%s" % (name, a, suffix)) for a in "xyz"[:self.dim]]
        return [[[res(x[t][j] * self.scale) for x in c] for j in range(len(c[0][t]))] for t in range(self.nt)]

    def field(self):
        rng, kw = self.rng, self.kw
        f = self.name()
        k = self.data()
        self.edge_data(f, k)
        ds.element_from_edge_model(edge_model=f, **kw)
        ds.element_pair_from_edge_model(edge_model=f, **kw)
        tell = lambda k: self.T.emit(op="field", k=k, v=self.vec(f), v0=self.vec(f + "_node0"), v1=self.vec(f + "_node1"))
        tell(k)
        if rng.random() < .5:
            k = self.data()
            self.set_edges(f, k)
            tell(k)
        if rng.random() < .7:
            s = self.name()
            self.solution(s, [1] * self.np)
            kk = [self.data(), self.data()]
            for q in "01":
                self.edge_data("%s:%s@n%s" % (f, s, q), kk[int(q)])
            ds.element_from_edge_model(edge_model=f, derivative=s, **kw)
            ds.element_pair_from_edge_model(edge_model=f, derivative=s, **kw)
            suf = [":%s@en%d" % (s, q) for q in range(self.dim + 1)]
            self.T.emit(op="dfield", k0=kk[0], k1=kk[1], v=[self.vec(f, x) for x in suf],
                        v0=[self.vec(f + "_node0", x) for x in suf], v1=[self.vec(f + "_node1", x) for x in suf])

    def efield(self):
        rng, kw = self.rng, self.kw
        f = self.name()
        ds.element_solution(name=f + "s", **kw)
        if rng.random() < .4:
            d = self.data()
            at = {frozenset(e): k for e, k in zip(self.edges, d)}
            k = [[at[frozenset(y[:2])] for y in x] for x in self.ends]
        else:
            k = [[rng.randrange(-9, 10) for _ in x] for x in self.ends]
        ds.set_element_values(name=f + "s", values=[float(v) for x in k for v in x], **kw)
        ds.element_model(name=f, equation="%ss*EdgeInverseLength" % f, **kw)
        ds.vector_element_model(element_model=f, **kw)
        self.T.emit(op="efield", k=k, v=self.vec(f))

    def slope(self):
        rng, kw = self.rng, self.kw
        s = self.name()
        avoid = rng.random() < .5
        vals = [rng.choice([0, rng.randrange(-9, 10), rng.randrange(1, 10)]) for _ in range(self.np)]
        if rng.random() < .3:
            f = [rng.randrange(-4, 5) for _ in range(3)]
            vals = [sum(f[c] * p[c] for c in range(3)) for p in zip(*[[whole(v / self.scale) for v in self.nm(c)] for c in "xyz"])]
        self.solution(s, vals)
        ds.vector_gradient(node_model=s, calc_type="avoidzero" if avoid else "default", **kw)
        for again in range(rng.choice([1, 2])):
            if again:
                vals = [rng.randrange(-9, 10) for _ in vals]
                ds.set_node_values(name=s, values=[float(v) for v in vals], **kw)
            got = [self.nm("%s_grad%s" % (s, c)) for c in "xyz"[:self.dim]]
            self.T.emit(op="slope", s=vals, avoid=avoid, got=[[fix(v * self.scale, 10000) for v in p] for p in zip(*got)])


def history(T, rng):
    T.begin({"op": "reset"})
    ds.reset_devsim()
    T.emit(op="reset")
    if rng.random() < .4:
        ds.set_parameter(name="extended_model", value=True)
    scale = rng.choice([1.0, 1.0, 2.0 ** -20, 0.5, 8.0])
    T.begin({"op": "build"})
    dim = build(rng, "d", scale)
    regions = ds.get_region_list(device="d")
    gs = [G(T, rng, "d", r, dim, scale) for r in regions]
    for g in rng.sample(gs, len(gs)):
        T.begin({"op": "region", "r": g.region})
        g.mesh()
        todo = [g.lengths, g.volumes, g.areas, g.turned, g.average, g.average, g.average, g.slope]
        if dim > 1:
            todo += [g.field, g.field, g.efield]
        rng.shuffle(todo)
        for f in todo:
            T.begin({"op": f.__name__})
            f()
    # boundaries that come later
    ifs = ds.get_interface_list(device="d")
    later = rng.random() < .8
    if later and ifs:
        r = rng.choice(ds.get_region_list(device="d", interface=ifs[0]))
        T.begin({"op": "contact"})
        ds.create_contact_from_interface(device="d", region=r, interface=ifs[0], name="later", material="metal")
    if later and dim == 1 and len(regions) == 2:
        n = [int(rng.randrange(len(ds.get_node_model_values(device="d", region=r, name="x")))) for r in ("r0", "r1")]
        T.begin({"op": "interface"})
        ds.create_interface_from_nodes(device="d", name="made", region0="r0", region1="r1", nodes0=[n[0]], nodes1=[n[1]])
    if later:
        for g in gs:
            T.begin({"op": "region", "r": g.region})
            g.mesh()
            g.areas()


def main(argv):
    seed, nh = map(int, argv[1:3])
    T = drv.Tracer()
    rng = random.Random(seed)
    for _ in range(nh):
        history(T, rng)


drv.main(main)
