"""What can be seen of the mesh of a device."""
import devsim as ds


def tup(x):
    return [int(v) for v in x]


def look(device, unit, hexes=True):
    """Everything the commands tell of the points, edges, elements, contacts and interfaces of a device."""
    out = {"dim": ds.get_dimension(device=device), "regions": [], "contacts": [], "interfaces": []}
    conv = lambda x: int(round(x * unit)) if abs(x * unit) < 2 ** 30 else 2000000011
    for r in ds.get_region_list(device=device):
        kw = dict(device=device, region=r)
        try:
            xyz = [ds.get_node_model_values(name=n, **kw) for n in "xyz"]
        except ds.error:            # a region without a point has no values to tell
            out["regions"].append({"name": r, "mat": ds.get_material(**kw), "pts": [], "hex": [], "index": [], "coord": [],
                                   "edges": [], "elems": [tup(e) for e in ds.get_element_node_list(**kw)]})
            continue
        ds.edge_from_node_model(node_model="node_index", **kw)
        e0 = ds.get_edge_model_values(name="node_index@n0", **kw)
        e1 = ds.get_edge_model_values(name="node_index@n1", **kw)
        for n in ("node_index@n0", "node_index@n1"):
            ds.delete_edge_model(name=n, **kw)
        out["regions"].append({
            "name": r, "mat": ds.get_material(**kw),
            "pts": [[conv(v) for v in p] for p in zip(*xyz)],
            "hex": [" ".join(v.hex() for v in p) for p in zip(*xyz)] if hexes else [],
            "index": tup(ds.get_node_model_values(name="node_index", **kw)),
            "coord": tup(ds.get_node_model_values(name="coordinate_index", **kw)),
            "edges": [[int(a), int(b)] for a, b in zip(e0, e1)],
            "elems": [tup(e) for e in ds.get_element_node_list(**kw)]})
    for c in ds.get_contact_list(device=device):
        r = ds.get_region_list(device=device, contact=c)[0]
        kw = dict(device=device, region=r)
        ds.contact_node_model(device=device, contact=c, name="look_c", equation="1")
        v = ds.get_node_model_values(name="look_c", **kw)
        ds.delete_node_model(name="look_c", **kw)
        out["contacts"].append({"name": c, "region": r, "mat": ds.get_material(device=device, contact=c),
                                "nodes": [i for i, x in enumerate(v) if x != 0],
                                "elems": [tup(e) for e in ds.get_element_node_list(contact=c, **kw)]})
    for i in ds.get_interface_list(device=device):
        r0, r1 = ds.get_region_list(device=device, interface=i)
        n = []
        for k in "01":
            ds.interface_model(device=device, interface=i, name="look_i", equation="node_index@r%s" % k)
            try:
                n.append(tup(ds.get_interface_model_values(device=device, interface=i, name="look_i")))
            except ds.error:        # there are no values to tell where there is no pair of nodes
                n.append([])
            ds.delete_interface_model(device=device, interface=i, name="look_i")
        out["interfaces"].append({"name": i, "r0": r0, "r1": r1, "n0": n[0], "n1": n[1],
                                  "e0": [tup(e) for e in ds.get_element_node_list(device=device, region=r0, interface=i)],
                                  "e1": [tup(e) for e in ds.get_element_node_list(device=device, region=r1, interface=i)]})
    return out
