"""Small devices with exactly representable geometry."""
import devsim as ds


def mesh1d(name, regions, spacing=1.0, cells=2, mats=None, contacts=("c0", "c1"), ifaces=None):
    """regions[i] spans cells cells of the given spacing (a number, or one per region)."""
    sp = spacing if isinstance(spacing, (list, tuple)) else [spacing] * len(regions)
    ce = cells if isinstance(cells, (list, tuple)) else [cells] * len(regions)
    ds.create_1d_mesh(mesh=name)
    x = 0.0
    ds.add_1d_mesh_line(mesh=name, pos=x, ps=sp[0], tag="t0")
    for i in range(len(regions)):
        for j in range(ce[i]):
            x += sp[i]
            ds.add_1d_mesh_line(mesh=name, pos=x, ps=sp[min(i + (j == ce[i] - 1), len(sp) - 1)],
                                ns=sp[i], tag="t%d" % (i + 1) if j == ce[i] - 1 else "m%d_%d" % (i, j))
    for i, r in enumerate(regions):
        ds.add_1d_region(mesh=name, material=(mats or {}).get(r, "Si"), region=r, tag1="t%d" % i, tag2="t%d" % (i + 1))
    ds.add_1d_contact(mesh=name, name=contacts[0], tag="t0", material="metal")
    ds.add_1d_contact(mesh=name, name=contacts[1], tag="t%d" % len(regions), material="metal")
    for i in range(1, len(regions)):
        ds.add_1d_interface(mesh=name, name=(ifaces or {}).get(i, "i%d" % i), tag="t%d" % i)
    ds.finalize_mesh(mesh=name)


def mesh2d(name, xs, ys, regions, contacts=(), interfaces=(), ps=None):
    """regions: (region, material, xl, xh, yl, yh); contacts: (name, region, box); interfaces: (name, r0, r1)."""
    ds.create_2d_mesh(mesh=name)
    for x in xs:
        ds.add_2d_mesh_line(mesh=name, dir="x", pos=float(x), ps=ps or 1.0)
    for y in ys:
        ds.add_2d_mesh_line(mesh=name, dir="y", pos=float(y), ps=ps or 1.0)
    for r in regions:
        kw = {}
        if len(r) > 2:
            kw = dict(xl=float(r[2]), xh=float(r[3]), yl=float(r[4]), yh=float(r[5]))
        ds.add_2d_region(mesh=name, region=r[0], material=r[1], **kw)
    for c in contacts:
        kw = {}
        if len(c) > 2:
            kw = dict(xl=float(c[2]), xh=float(c[3]), yl=float(c[4]), yh=float(c[5]))
        ds.add_2d_contact(mesh=name, name=c[0], region=c[1], material="metal", bloat=1e-10, **kw)
    for i in interfaces:
        ds.add_2d_interface(mesh=name, name=i[0], region0=i[1], region1=i[2])
    ds.finalize_mesh(mesh=name)


def topology(device, region):
    """Edges and element edges of a region in the order of its edge and element models (0-based)."""
    kw = dict(device=device, region=region)
    ds.edge_from_node_model(node_model="node_index", **kw)
    n0 = ds.get_edge_model_values(name="node_index@n0", **kw)
    n1 = ds.get_edge_model_values(name="node_index@n1", **kw)
    edges = [(int(a), int(b)) for a, b in zip(n0, n1)]
    nn = len(ds.get_node_model_values(name="node_index", **kw))
    elems = []
    if ds.get_dimension(device=device) > 1:
        ds.element_from_node_model(node_model="node_index", **kw)
        e = [ds.get_element_model_values(name="node_index@en%d" % i, **kw) for i in range(3)]
        look = {}
        for i, (a, b) in enumerate(edges):
            look[(a, b)] = i
        for a, b, c in zip(*e):
            elems.append((look[(int(a), int(b))], int(c)))
        for i in (2, 1, 0):
            ds.delete_element_model(name="node_index@en%d" % i, **kw)
    for i in (1, 0):
        ds.delete_edge_model(name="node_index@n%d" % i, **kw)
    return nn, edges, elems


PERMS = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


def boxes3d(nx, ny, nz):
    """Points and (cell, tetrahedra) of a grid of unit cubes, six tetrahedra each."""
    pid = lambda i, j, k: (i * (ny + 1) + j) * (nz + 1) + k
    pts = [(float(i), float(j), float(k)) for i in range(nx + 1) for j in range(ny + 1) for k in range(nz + 1)]
    cells = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                tets = []
                for p in PERMS:
                    c = [i, j, k]
                    t = [pid(*c)]
                    for a in p:
                        c[a] += 1
                        t.append(pid(*c))
                    tets.append(t)
                cells.append(((i, j, k), tets))
    return pts, cells


def gmsh3d(name, nx=1, ny=1, nz=1, region="r1"):
    pts, cells = boxes3d(nx, ny, nz)
    el = []
    for _, tets in cells:
        for t in tets:
            el += [3, 0] + t
    # one contact: the triangles of the face z = 0
    face = sorted({tuple(sorted(t[i] for i in range(4) if pts[t[i]][2] == 0)) for _, tets in cells for t in tets
                   if sum(pts[q][2] == 0 for q in t) == 3})
    for f in face:
        el += [2, 1] + list(f)
    ds.create_gmsh_mesh(mesh=name, coordinates=[c for p in pts for c in p], physical_names=[region + "_v", "bottom"], elements=el)
    ds.add_gmsh_region(mesh=name, gmsh_name=region + "_v", region=region, material="Si")
    ds.add_gmsh_contact(mesh=name, gmsh_name="bottom", name="c0", region=region, material="metal")
    ds.finalize_mesh(mesh=name)


def topology3(device, region):
    """As topology, but element edges list every other node of the element."""
    kw = dict(device=device, region=region)
    nn, edges, elems = topology(device, region)
    if ds.get_dimension(device=device) == 3:
        ds.element_from_node_model(node_model="node_index", **kw)
        e = [ds.get_element_model_values(name="node_index@en%d" % i, **kw) for i in range(4)]
        look = {ab: i for i, ab in enumerate(edges)}
        elems = [(look[(int(a), int(b))], int(c), int(d)) for a, b, c, d in zip(*e)]
        for i in (3, 2, 1, 0):
            ds.delete_element_model(name="node_index@en%d" % i, **kw)
    return nn, edges, elems


def gmsh2d(name, nx, ny, regions, contacts=(), interfaces=(), flip=()):
    """Grid of unit squares, two triangles each. regions: (name, cells (i, j)); contacts: (name, region, edges);
    interfaces: (name, r0, r1, edges); an edge is two grid points. flip: cells cut along the other diagonal."""
    pid = lambda p: p[0] * (ny + 1) + p[1]
    pts = [(float(i), float(j), 0.0) for i in range(nx + 1) for j in range(ny + 1)]
    names, el = [], []
    for r, cells in regions:
        for (i, j) in cells:
            a, b, c, d = (i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)
            tri = [(a, b, c), (a, c, d)] if (i, j) not in flip else [(a, b, d), (b, c, d)]
            for t in tri:
                el += [2, len(names)] + [pid(p) for p in t]
        names.append("v_" + r)
    for x in list(contacts) + list(interfaces):
        for p, q in x[-1]:
            el += [1, len(names), pid(p), pid(q)]
        names.append("s_" + x[0])
    ds.create_gmsh_mesh(mesh=name, coordinates=[c for p in pts for c in p], physical_names=names, elements=el)
    for r, _ in regions:
        ds.add_gmsh_region(mesh=name, gmsh_name="v_" + r, region=r, material="Si")
    for c, r, _ in contacts:
        ds.add_gmsh_contact(mesh=name, gmsh_name="s_" + c, name=c, region=r, material="metal")
    for i, r0, r1, _ in interfaces:
        ds.add_gmsh_interface(mesh=name, gmsh_name="s_" + i, name=i, region0=r0, region1=r1)
    ds.finalize_mesh(mesh=name)
