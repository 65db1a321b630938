"""Histories of devices being written to files for visualization, and what those files hold."""
import base64
import json
import os
import random
import re
import struct
import tempfile
import zlib

import devsim as ds
import drv
import d_gmesh
import look as lk

U = 4096          # values are told in U-ths
D = 1024          # directions of edges are told in D-ths


def q(v, unit=U):
    if not v == v or abs(v * unit) > 2 ** 30:
        return drv.BAD
    return int(round(v * unit))


class Broken(Exception):
    pass


# ---------------------------------------------------------------- reading the files
def vtk_array(text):
    raw = text.strip()
    n = struct.unpack("<I", base64.b64decode(raw[:8])[:4])[0]
    hl = 4 * (3 + n)
    hc = (hl + 2) // 3 * 4
    head = struct.unpack("<%dI" % (3 + n), base64.b64decode(raw[:hc], validate=True)[:hl])
    data = base64.b64decode(raw[hc:], validate=True)
    out, at = b"", 0
    for k in range(n):
        z = zlib.decompress(data[at:at + head[3 + k]])
        at += head[3 + k]
        full = head[1] if (k < n - 1 or head[2] == 0) else head[2]
        if len(z) != full:
            raise Broken("block")
        out += z
    if at != len(data) or len(out) % 8:
        raise Broken("length")
    return list(struct.unpack("<%dd" % (len(out) // 8), out))


def read_vtu(path):
    import xml.etree.ElementTree as ET
    root = ET.parse(path).getroot()
    piece = root.find("UnstructuredGrid").find("Piece")
    np_, nc = int(piece.get("NumberOfPoints")), int(piece.get("NumberOfCells"))

    def arr(a):
        k = int(a.get("NumberOfComponents", "1"))
        v = vtk_array(a.text)
        return k, v
    k, pts = arr(piece.find("Points").find("DataArray"))
    if k != 3:
        raise Broken("points")
    cells = {a.get("Name"): [int(x) for x in a.text.split()] for a in piece.find("Cells")}
    el, start = [], 0
    for o in cells["offsets"]:
        el.append(cells["connectivity"][start:o])
        start = o
    if start != len(cells["connectivity"]) or len(cells["types"]) != len(el):
        raise Broken("cells")
    out = {"count": [np_, nc], "pts": [[q(v) for v in pts[3 * j:3 * j + 3]] for j in range(len(pts) // 3)],
           "elems": el, "types": cells["types"], "scalars": [], "vectors": [], "cells": []}
    for tag, put in (("PointData", 1), ("CellData", 0)):
        sec = piece.find(tag)
        for a in (sec if sec is not None else []):
            k, v = arr(a)
            if put and k == 3:
                out["vectors"].append({"name": a.get("Name"), "v": [[q(x) for x in v[3 * j:3 * j + 3]] for j in range(len(v) // 3)], "n": len(v)})
            elif k == 1:
                out["scalars" if put else "cells"].append({"name": a.get("Name"), "v": [q(x) for x in v]})
            else:
                raise Broken("components")
    return out


def read_vtk(base):
    import xml.etree.ElementTree as ET
    root = ET.parse(base + ".vtm").getroot()
    sets = [d.get("file") for d in root.find("vtkMultiBlockDataSet")]
    groups = [int(d.get("group")) for d in root.find("vtkMultiBlockDataSet")]
    lines = open(base + ".visit").read().split("\n")
    if lines[0] != "!NBLOCKS %d" % len(sets) or lines[1:] != sets + [""] or groups != list(range(len(sets))):
        raise Broken("blocks")
    here = os.path.dirname(base)
    return [dict(read_vtu(os.path.join(here, os.path.basename(f))), name="") for f in sets]


ZONE = re.compile(r'ZONE T="(.*)" NODES=(\d+), ELEMENTS=(\d+), DATAPACKING=BLOCK, ZONETYPE=(\w+)(?:, VARLOCATION=\(\[([\d,]+)\]=CELLCENTERED\))?$')
SHAPE = {"FELINESEG": (2, 3), "FETRIANGLE": (3, 5), "FETETRAHEDRON": (4, 10)}


def read_tecplot(path, device):
    text = open(path).read()
    if any(len(l) > 32000 for l in text.split("\n")):
        raise Broken("line too long")
    lines = text.split("\n")
    if lines[0] != 'TITLE = "%s"' % device:
        raise Broken("title")
    at = 1
    head = ""
    while not lines[at].startswith("ZONE"):
        head += " " + lines[at]
        at += 1
    if "VARIABLES =" not in head:
        raise Broken("variables")
    names = re.findall(r'"([^"]*)"', head)
    zones = []
    while at < len(lines) and lines[at].strip():
        m = ZONE.match(lines[at])
        if not m:
            raise Broken("zone")
        nn, ne = int(m.group(2)), int(m.group(3))
        per, typ = SHAPE[m.group(4)]
        cell = {int(x) for x in (m.group(5) or "").split(",") if x}
        at += 1
        tok = []
        while at < len(lines) and not lines[at].startswith("ZONE"):
            tok += lines[at].split()
            at += 1
        cols, p = [], 0
        for j in range(len(names)):
            k = ne if j + 1 in cell else nn
            cols.append([q(float(x)) for x in tok[p:p + k]])
            p += k
        el = [int(x) - 1 for x in tok[p:]]
        if len(el) != per * ne:
            raise Broken("elements")
        dim = per - 1 if per > 2 else 1
        if names[:dim] != ["x", "y", "z"][:dim]:
            raise Broken("coordinates")
        out = {"name": m.group(1), "count": [nn, ne], "pts": [list(x) for x in zip(*cols[:dim])],
               "elems": [el[per * j:per * j + per] for j in range(ne)], "types": [typ] * ne, "scalars": [], "vectors": [], "cells": []}
        j = dim
        while j < len(names):
            n = names[j]
            if j + 1 in cell:
                out["cells"].append({"name": n, "v": cols[j]})
            elif n.endswith("_x_onNode"):
                if names[j:j + dim] != ["%s_%s_onNode" % (n[:-9], k) for k in "xyz"[:dim]]:
                    raise Broken("vector")
                out["vectors"].append({"name": n[:-9], "v": [list(x) + [0] * (3 - dim) for x in zip(*cols[j:j + dim])], "n": 3 * nn})
                j += dim - 1
            else:
                out["scalars"].append({"name": n, "v": cols[j]})
            j += 1
        zones.append(out)
    return zones


# ---------------------------------------------------------------- histories
class X:
    def __init__(self, T, rng, tmp):
        self.T, self.rng, self.tmp = T, rng, tmp
        self.nf = 0

    def do(self, op, fn, **ev):
        self.T.begin(dict(ev, op=op))
        try:
            fn()
            ok = True
        except ds.error as x:
            if os.environ.get("LOUD"):
                print("REFUSED", op, ev, repr(str(x))[:300])
            ok = False
        self.T.emit(op=op, ok=ok, **ev)
        return ok

    def reset(self):
        self.T.begin({"op": "reset"})
        ds.reset_devsim()
        for f in os.listdir(self.tmp):
            p = os.path.join(self.tmp, f)
            (os.rmdir if os.path.isdir(p) else os.unlink)(p)
        self.T.emit(op="reset")

    def make(self, d, dim=None, long=0):
        rng = self.rng
        if long:
            pts, parts = [[k / 16, 0, 0] for k in range(long)], [[[k, k + 1] for k in range(long - 1)]]
            dim = 1
        else:
            dim, pts, parts, facets = d_gmesh.mesh(rng, dim)
        unit = rng.choice([1, .5, .25, 1 / 3])
        regs = rng.sample(["r0", "Silicon", "a gate", "z9"], len(parts))

        def fn():
            m = "mesh_" + d
            names, flat = [], []
            for k, p in enumerate(parts):
                names.append("p%d" % k)
                for t in p:
                    flat += [len(t) - 1, k] + list(t)
            ds.create_gmsh_mesh(mesh=m, coordinates=[v * unit for p in pts for v in p], physical_names=names, elements=flat)
            for k, r in enumerate(regs):
                ds.add_gmsh_region(mesh=m, gmsh_name="p%d" % k, region=r, material="Si")
            ds.finalize_mesh(mesh=m)
            ds.create_device(mesh=m, device=d)
            ds.delete_mesh(mesh=m)
        self.do("device", fn, d=d)

    def values(self, n):
        return [self.rng.randrange(-9, 10) / self.rng.choice([1, 2, 4]) for _ in range(n)]

    def equip(self, d):
        rng = self.rng
        dim = ds.get_dimension(device=d)
        r = rng.choice(ds.get_region_list(device=d))
        kw = dict(device=d, region=r)
        nl, el = ds.get_node_model_list(**kw), ds.get_edge_model_list(**kw)
        k = rng.choice(["node", "node", "nsol", "edge", "edge", "edge", "esol", "efn"] + (["elem", "elem", "elem", "tsol", "efe"] if dim > 1 else []))
        show = rng.choice(["", "scalar", "nodisplay", "vector"])
        tell = dict(d=d, r=r)

        def model(kind, word, n, eq):
            o = {"display_type": show} if show else {}
            self.do("model", lambda: getattr(ds, word)(name=n, equation=eq, **kw, **o), kind=kind, n=n, show=show, **tell)

        def sol(kind, word, n):
            if n in {"node": nl, "edge": el, "element": ds.get_element_model_list(**kw) if dim > 1 else []}[kind]:
                return
            get, put = {"node": (ds.get_node_model_values, ds.set_node_values), "edge": (ds.get_edge_model_values, ds.set_edge_values),
                        "element": (ds.get_element_model_values, ds.set_element_values)}[kind]
            if self.do("model", lambda: getattr(ds, word)(name=n, **kw), kind=kind, n=n, show="", **tell):
                if rng.random() < .85:
                    put(name=n, values=self.values(len(get(name=n, **kw))), **kw)
        if k == "node":
            model("node", "node_model", rng.choice(["nA", "nB", "NodeVolume"]), rng.choice(["x*2-y", "1.5", "node_index", "nU*2" if "nU" in nl else "x"]))
        elif k == "nsol":
            sol("node", "node_solution", rng.choice(["nU", "nV"]))
        elif k == "edge":
            model("edge", "edge_model", rng.choice(["eA", "eB", "eC", "eD"]), rng.choice(["edge_index-3", "2.5", "edge_index*0.5", "eU" if "eU" in el else "unitx"]))
        elif k == "esol":
            sol("edge", "edge_solution", rng.choice(["eU", "eV"]))
        elif k == "efn":
            ds.edge_from_node_model(node_model=rng.choice(list(nl)), **kw)
        elif k == "elem":
            tl = list(ds.get_element_model_list(**kw))
            model("element", "element_model", rng.choice(["tA", "tB"]), rng.choice(["3", "tU-1" if "tU" in tl else "2", "eA" if "eA" in el else "ElementEdgeCouple"]))
        elif k == "tsol":
            sol("element", "element_solution", rng.choice(["tU", "tV"]))
        elif k == "efe":
            ds.element_from_edge_model(edge_model=rng.choice([e for e in el if "@" not in e]), **kw)

    def see(self, d, only=None):
        """The device as the commands tell it."""
        self.T.begin({"op": "see", "d": d})
        dim = ds.get_dimension(device=d)
        regs = []
        for r in lk.look(d, U, hexes=False)["regions"]:
            kw = dict(device=d, region=r["name"])
            want = lambda n: only is None or n in only
            nv = [{"name": n, "v": [q(x) for x in ds.get_node_model_values(name=n, **kw)]} for n in ds.get_node_model_list(**kw) if want(n)]
            ev = [{"name": n, "v": [q(x) for x in ds.get_edge_model_values(name=n, **kw)]} for n in ds.get_edge_model_list(**kw) if want(n)]
            tv = [{"name": n, "v": [q(x) for x in ds.get_element_model_values(name=n, **kw)]} for n in ds.get_element_model_list(**kw) if want(n)] if dim > 1 else []
            un = [[q(x, D) for x in ds.get_edge_model_values(name="unit" + a, **kw)] for a in "xyz"[:dim]]
            regs.append({"name": r["name"], "pts": r["pts"], "edges": r["edges"], "elems": r["elems"] if dim > 1 else r["edges"],
                         "unit": un, "node": nv, "edge": ev, "element": tv})
        self.regs = regs
        self.T.emit(op="see", d=d, dim=dim, regions=regs)

    def snapshot(self):
        return {f: open(os.path.join(self.tmp, f), "rb").read() for f in os.listdir(self.tmp) if os.path.isfile(os.path.join(self.tmp, f))}

    def write(self, d, keep=None, typ=None, only=None):
        rng = self.rng
        typ = typ or rng.choice(["vtk", "tecplot"])
        self.nf += 1
        f = os.path.join(self.tmp, "f%d" % (self.nf % 3))
        can = True
        if rng.random() < .06:
            f, can = os.path.join(self.tmp, "none", "f"), False
        what = rng.choice(["all", "all", "some", "some", "some", "none"]) if keep is None else "given"
        kw = {}
        names = sorted({m["name"] for r in self.regs for k in ("node", "edge", "element") for m in r[k]})
        good = True
        if what == "all":
            keep = names
        elif what != "given":
            keep = [n for n in names if rng.random() < .5] if what == "some" else []
        if what != "all":
            ks = set(keep)
            style = rng.choice(["set", "set", "set", "set", "raise", "int", "notfn", "notbool"]) if what != "given" else "set"
            if style == "set":
                kw["include_test"] = lambda n: n in ks
            elif style == "raise":            # a test which fails does not include
                def t(n):
                    if n in names and n not in ks:
                        raise KeyError(n)
                    return True
                kw["include_test"] = t
            elif style == "int":
                kw["include_test"] = lambda n: bool(n in ks)
            elif style == "notfn":
                kw["include_test"], good = "yes", False
            else:
                kw["include_test"], good = (lambda n: {}[n]), False
        if d:
            kw["device"] = d
        before = self.snapshot()
        self.T.begin({"op": "write", "type": typ, "d": d, "keep": keep})
        err = False
        try:
            ds.write_devices(file=f, type=typ, **kw)
        except ds.error as x:
            err = str(x)
            if os.environ.get("LOUD"):
                print("REFUSED write", typ, d, repr(err)[:300])
        after = self.snapshot()
        base = os.path.basename(f)
        mine = lambda n: n == base if typ == "tecplot" else n in (base + ".vtm", base + ".visit") or re.match(re.escape(base) + r"_\d+\.vtu$", n)
        others = all(before.get(n) == after.get(n) for n in set(before) | set(after) if not mine(n))
        kept = before == after
        made, fine = [], True
        if err is False:
            try:
                made = read_vtk(f) if typ == "vtk" else read_tecplot(f, d or ds.get_device_list()[0])
            except Exception as x:
                fine = False
                if os.environ.get("LOUD"):
                    print("BROKEN", repr(x)[:300])
        self.T.emit(op="write", type=typ, d=d, keep=keep, good=good, can=can, ok=err is False, others=others, kept=kept, fine=fine, made=made)

    def history(self, dim):
        rng = self.rng
        self.reset()
        self.make("d", dim)
        for _ in range(rng.choice([4, 8, 14])):
            self.equip("d")
        self.see("d")
        for _ in range(rng.choice([1, 2])):
            self.write(rng.choice(["d", "d", ""]))
        for _ in range(rng.choice([1, 3])):
            self.equip("d")
        self.see("d")
        self.write("d")
        if rng.random() < .3:
            self.do("device", lambda: self.second(), d="e")
            self.see("d")
            for _ in range(3):
                self.write(rng.choice(["", "d", "nosuch"]))

    def second(self):
        ds.create_1d_mesh(mesh="me")
        ds.add_1d_mesh_line(mesh="me", pos=0, ps=1, tag="a")
        ds.add_1d_mesh_line(mesh="me", pos=2, ps=1, tag="b")
        ds.add_1d_region(mesh="me", material="Si", region="r0", tag1="a", tag2="b")
        for t in "ab":
            ds.add_1d_contact(mesh="me", name="c" + t, tag=t, material="m")
        ds.finalize_mesh(mesh="me")
        ds.create_device(mesh="me", device="e")

    def big(self):
        """More points than fit into a line or a block of a file."""
        self.reset()
        self.make("d", long=self.rng.choice([4095, 4096, 4097, 4600]))
        kw = dict(device="d", region=ds.get_region_list(device="d")[0])
        self.do("model", lambda: ds.node_solution(name="nU", **kw), kind="node", n="nU", show="", d="d", r=kw["region"])
        n = len(ds.get_node_model_values(name="nU", **kw))
        ds.set_node_values(name="nU", values=[self.rng.randrange(-9999, 9999) * 1e-4 for _ in range(n)], **kw)
        self.see("d", only=["nU"])
        for t in ("tecplot", "vtk"):
            self.write("d", keep=["nU"], typ=t)


def run(argv):
    seed, n, big = int(argv[1]), int(argv[2]), int(argv[3])
    rng = random.Random(seed)
    T = drv.Tracer()
    with tempfile.TemporaryDirectory() as tmp:
        x = X(T, rng, tmp)
        for k in range(n):
            x.history(rng.choice([1, 2, 2, 3, 3]))
        if big:
            x.big()


drv.main(run)
