"""Drives whole sessions: one script of valid commands, again and again, with refused commands in between.

All that is recorded is what was asked and what was seen: which command, its arguments as each type would
read them, whether it was refused, what it returned and what the simulator holds.  Session decides."""
import array
import hashlib
import math
import os
import random
import re
import resource
import shutil
import tempfile

import devsim as ds
import drv


def h(x):
    return hashlib.sha1(repr(x).encode("utf-8", "backslashreplace")).hexdigest()[:12]


def plain(x):
    if isinstance(x, dict):
        return sorted((str(k), plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple, array.array)):
        return [plain(v) for v in x]
    if isinstance(x, float):
        return x.hex() if x == x else "nan"
    if callable(x):
        return "callable"
    return x


def q(fn, **kw):
    try:
        return plain(getattr(ds, fn)(**kw))
    except ds.error:
        return "E"


def names(fn, **kw):
    v = q(fn, **kw)
    return sorted(v) if isinstance(v, list) else []


def world():
    """Everything the commands that only look can tell."""
    out = [q("get_device_list"), q("get_mesh_list"), names("get_circuit_node_list")]
    sols = names("get_circuit_solution_list")
    out.append([(n, s, q("get_circuit_node_value", node=n, solution=s), q("get_circuit_equation_number", node=n))
                for n in out[2] for s in sols])
    out.append(sols)
    out.append([(p, q("get_parameter", name=p)) for p in names("get_parameter_list")])
    for d in names("get_device_list"):
        k = dict(device=d)
        out.append([d, q("get_dimension", **k), [(p, q("get_parameter", name=p, **k)) for p in names("get_parameter_list", **k)]])
        for r in names("get_region_list", **k):
            kr = dict(k, region=r)
            out.append([r, q("get_material", **kr), [(p, q("get_parameter", name=p, **kr)) for p in names("get_parameter_list", **kr)],
                        q("get_element_node_list", **kr),
                        [(m, q("get_node_model_values", name=m, **kr)) for m in names("get_node_model_list", **kr)],
                        [(m, q("get_edge_model_values", name=m, **kr)) for m in names("get_edge_model_list", **kr)],
                        [(m, q("get_element_model_values", name=m, **kr)) for m in names("get_element_model_list", **kr)],
                        [(e, q("get_equation_command", name=e, **kr), q("get_equation_numbers", equation=e, **kr))
                         for e in names("get_equation_list", **kr)]])
        for c in names("get_contact_list", **k):
            kc = dict(k, contact=c)
            out.append([c, q("get_region_list", **kc), q("get_material", **kc),
                        [(e, q("get_contact_equation_command", name=e, **kc), q("get_contact_current", equation=e, **kc),
                          q("get_contact_charge", equation=e, **kc)) for e in names("get_contact_equation_list", **kc)]])
        for i in names("get_interface_list", **k):
            ki = dict(k, interface=i)
            out.append([i, q("get_region_list", **ki),
                        [(m, q("get_interface_model_values", name=m, **ki)) for m in names("get_interface_model_list", **ki)],
                        [(e, q("get_interface_equation_command", name=e, **ki)) for e in names("get_interface_equation_list", **ki)]])
    return h(out), out


def twice(x):
    return 2.0 * x


def custom(**kw):
    return [[], [], True]


def script():
    S = []

    def a(cmd, **kw):
        S.append((cmd, kw))
    # a bar of two regions
    a("create_1d_mesh", mesh="m1")
    a("add_1d_mesh_line", mesh="m1", pos=0.0, ps=1.0, tag="t0")
    a("add_1d_mesh_line", mesh="m1", pos=2.0, ps=1.0, ns=1.0, tag="t1")
    a("add_1d_mesh_line", mesh="m1", pos=4.0, ps=1.0, tag="t2")
    a("add_1d_region", mesh="m1", material="Si", region="r0", tag1="t0", tag2="t1")
    a("add_1d_region", mesh="m1", material="Ox", region="r1", tag1="t1", tag2="t2")
    a("add_1d_contact", mesh="m1", name="c0", tag="t0", material="metal")
    a("add_1d_contact", mesh="m1", name="c1", tag="t2", material="metal")
    a("add_1d_interface", mesh="m1", name="i1", tag="t1")
    a("finalize_mesh", mesh="m1")
    a("create_device", mesh="m1", device="bar")
    a("set_parameter", name="eps", value=2.0)
    a("set_parameter", device="bar", name="eps", value=3.0)
    a("set_parameter", device="bar", region="r1", name="eps", value="4")
    a("set_material", device="bar", region="r1", material="Oxide")
    a("set_material", device="bar", contact="c0", material="Al")
    a("get_parameter", device="bar", region="r1", name="eps")
    a("get_material", device="bar", contact="c0")
    for r in ("r0", "r1"):
        k = dict(device="bar", region=r)
        a("node_solution", name="u", **k)
        a("edge_from_node_model", node_model="u", **k)
        a("edge_model", name="flux", equation="eps*(u@n1-u@n0)*EdgeInverseLength", **k)
        a("edge_model", name="flux:u@n0", equation="-eps*EdgeInverseLength", **k)
        a("edge_model", name="flux:u@n1", equation="eps*EdgeInverseLength", display_type="vector", **k)
        a("node_model", name="src", equation="x-1", display_type="scalar", **k)
        a("node_model", name="chg", equation="u", display_type="nodisplay", **k)
        a("node_model", name="chg:u", equation="1", **k)
        a("equation", name="eq", variable_name="u", node_model="src", edge_model="flux", variable_update="default", time_node_model="chg", **k)
    a("interface_model", device="bar", interface="i1", name="cont", equation="u@r0-u@r1")
    a("interface_model", device="bar", interface="i1", name="cont:u@r0", equation="1")
    a("interface_model", device="bar", interface="i1", name="cont:u@r1", equation="-1")
    a("interface_equation", device="bar", interface="i1", name="eq", interface_model="cont", type="continuous")
    a("contact_node_model", device="bar", contact="c0", name="bc0", equation="u-1")
    a("contact_node_model", device="bar", contact="c0", name="bc0:u", equation="1", display_type="scalar")
    a("contact_equation", device="bar", contact="c0", name="eq", node_model="bc0", edge_current_model="flux")
    a("contact_node_model", device="bar", contact="c1", name="bc1", equation="u-cn")
    a("contact_node_model", device="bar", contact="c1", name="bc1:u", equation="1")
    a("contact_node_model", device="bar", contact="c1", name="bc1:cn", equation="-1")
    a("contact_edge_model", device="bar", contact="c1", name="cem", equation="2")
    a("add_circuit_node", name="cn", value=0.0, variable_update="default")
    a("contact_equation", device="bar", contact="c1", name="eq", node_model="bc1", edge_current_model="flux", node_charge_model="chg", circuit_node="cn")
    a("circuit_element", name="V1", n1="cn", n2="0", value=2.0, acreal=1.0, acimag=0.0)
    a("circuit_element", name="R1", n1="cn", n2="b", value=4.0)
    a("circuit_element", name="C1", n1="b", n2="0", value=0.5)
    a("circuit_node_alias", node="cn", alias="other")
    a("set_node_values", device="bar", region="r0", name="u", init_from="src")
    a("set_node_values", device="bar", region="r1", name="u", values=[1.0, 2.0, 3.0])
    a("set_node_value", device="bar", region="r1", name="u", index=1, value=0.5)
    a("set_node_value", device="bar", region="r0", name="u", value=0.25)
    a("solve", type="dc", absolute_error=1e10, relative_error=1e-10, maximum_iterations=30)
    a("get_contact_current", device="bar", contact="c0", equation="eq")
    a("get_contact_charge", device="bar", contact="c1", equation="eq")
    a("get_circuit_node_value", node="cn", solution="dcop")
    a("get_equation_numbers", device="bar", region="r0", equation="eq")
    a("get_matrix_and_rhs", format="csc")
    a("circuit_alter", name="V1", param="value", value=3.0)
    a("circuit_alter", name="R1", value=5.0)
    a("solve", type="dc", absolute_error=1e10, relative_error=1e-10)
    a("solve", type="ac", frequency=2.0)
    a("solve", type="transient_dc", absolute_error=1e10, relative_error=1e-10, maximum_iterations=30)
    a("solve", type="transient_bdf1", absolute_error=1e10, relative_error=1e-10, maximum_iterations=30, tdelta=0.5, charge_error=1e10, gamma=1.0)
    a("solve", type="transient_tr", absolute_error=1e10, relative_error=1e-10, tdelta=0.25, charge_error=1e10, info=False)
    a("set_circuit_node_value", node="b", solution="dcop", value=7.0)
    a("get_circuit_solution_list")
    a("get_circuit_node_list")
    a("get_circuit_equation_number", node="b")
    a("custom_equation", name="cust", procedure=custom)
    a("register_function", name="twice", nargs=1, procedure=twice)
    a("node_model", device="bar", region="r0", name="tw", equation="twice(x)")
    a("print_node_values", device="bar", region="r0", name="tw")
    a("print_edge_values", device="bar", region="r0", name="flux")
    a("edge_average_model", device="bar", region="r0", node_model="u", edge_model="uavg", average_type="geometric")
    a("edge_average_model", device="bar", region="r0", node_model="u", edge_model="uavg", derivative="u")
    a("edge_solution", device="bar", region="r0", name="es")
    a("set_edge_values", device="bar", region="r0", name="es", values=[1.5, 2.5])
    a("set_edge_values", device="bar", region="r0", name="es", init_from="flux")
    a("symdiff", expr="diff(x^2,x)")
    # a square
    a("create_2d_mesh", mesh="m2")
    for d in "xy":
        for p in (0.0, 1.0, 2.0):
            a("add_2d_mesh_line", mesh="m2", dir=d, pos=p, ps=1.0, ns=1.0)
    a("add_2d_region", mesh="m2", material="Si", region="g", xl=0.0, xh=1.0, yl=0.0, yh=2.0)
    a("add_2d_region", mesh="m2", material="Si", region="k", xl=1.0, xh=2.0, yl=0.0, yh=2.0, bloat=1e-10)
    a("add_2d_contact", mesh="m2", name="left", region="g", material="metal", xl=1.0, xh=1.0, yl=0.0, yh=1.0, bloat=1e-10)
    a("add_2d_interface", mesh="m2", name="gk", region0="g", region1="k")
    a("finalize_mesh", mesh="m2")
    a("create_device", mesh="m2", device="sq")
    k = dict(device="sq", region="g")
    a("get_element_node_list", device="sq", region="g", contact="left")
    a("get_element_node_list", device="sq", region="g", reorder=True)
    a("node_solution", name="w", **k)
    a("node_model", name="w0", equation="x+y*y", **k)
    a("set_node_values", name="w", init_from="w0", **k)
    a("edge_from_node_model", node_model="w", calc_type="default", **k)
    a("edge_model", name="we", equation="(w@n1-w@n0)*EdgeInverseLength", **k)
    a("edge_model", name="we:w@n0", equation="-EdgeInverseLength", **k)
    a("edge_model", name="we:w@n1", equation="EdgeInverseLength", **k)
    a("element_from_edge_model", edge_model="we", **k)
    a("element_from_edge_model", edge_model="we", derivative="w", **k)
    a("element_from_node_model", node_model="w", **k)
    a("element_pair_from_edge_model", edge_model="we", **k)
    a("vector_element_model", element_model="we_x", **k)
    a("vector_gradient", node_model="w", calc_type="default", **k)
    a("element_model", name="em", equation="w@en0+we_x", display_type="scalar", **k)
    a("interface_normal_model", interface="gk", **k)
    a("element_solution", name="el", **k)
    a("set_element_values", name="el", init_from="em", **k)
    a("print_element_values", name="el", **k)
    a("set_parameter", name="raxis_zero", value=0.0)
    a("set_parameter", name="raxis_variable", value="x")
    a("cylindrical_edge_couple", **k)
    a("cylindrical_node_volume", **k)
    a("cylindrical_surface_area", **k)
    a("debug_triangle_models", **k)
    # points and triangles given as lists
    a("create_gmsh_mesh", mesh="m3", coordinates=[0., 0., 0., 1., 0., 0., 1., 1., 0., 0., 1., 0.], physical_names=["bulk", "side"],
      elements=[2, 0, 0, 1, 2, 2, 0, 0, 2, 3, 1, 1, 0, 1])
    a("add_gmsh_region", mesh="m3", gmsh_name="bulk", region="bulk", material="Si")
    a("add_gmsh_contact", mesh="m3", gmsh_name="side", region="bulk", name="side", material="metal")
    a("finalize_mesh", mesh="m3")
    a("create_device", mesh="m3", device="gm")
    a("write_devices", file="a.msh", device="bar", type="devsim")
    a("write_devices", file="a.tec", device="sq", type="tecplot")
    a("write_devices", file="a", device="sq", type="vtk")
    # taking things away
    a("delete_element_model", name="em", **k)
    a("delete_edge_model", name="we:w@n0", **k)
    a("delete_node_model", name="w0", **k)
    a("get_contact_equation_command", device="bar", contact="c0", name="eq")
    a("delete_interface_equation", device="bar", interface="i1", name="eq")
    a("delete_interface_model", device="bar", interface="i1", name="cont:u@r1")
    a("delete_contact_equation", device="bar", contact="c0", name="eq")
    a("get_equation_command", device="bar", region="r0", name="eq")
    a("delete_equation", device="bar", region="r0", name="eq")
    a("create_interface_from_nodes", device="bar", name="i2", region0="r0", region1="r1", nodes0=[2], nodes1=[0])
    a("create_contact_from_interface", device="bar", interface="i1", region="r0", name="c2", material="metal")
    a("delete_mesh", mesh="m3")
    a("delete_device", device="bar")
    a("delete_mesh", mesh="m1")
    a("load_devices", file="a.msh")
    a("delete_circuit")
    return S


CIRCUIT_SIDE = {}


class Odd:
    """An object with no value of any kind but a name."""
    def __init__(self, n="odd"):
        self.n = n

    def __bool__(self):
        raise ValueError

    def __str__(self):
        return self.n

    def __repr__(self):
        return "Odd(%s)" % self.n


class Mute(Odd):
    def __str__(self):
        raise ValueError


def views(v):
    """A value as every declared type would read it: '-' where it cannot."""
    o = {}
    try:
        o["S"] = v.decode("utf-8", "backslashreplace") if isinstance(v, bytes) and v else str(v)
        o["S"] = o["S"].encode("utf-8", "backslashreplace").decode()
    except Exception:
        o["S"] = ""
    try:
        o["F"] = repr(float(v))
    except Exception:
        o["F"] = "-"
    try:
        if isinstance(v, (str, bytes)):
            n = int(v)
        elif type(v) is int:
            n = v
        else:
            n = None
        o["I"] = "-" if n is None or not -2 ** 31 <= n < 2 ** 31 else str(n)
    except Exception:
        o["I"] = "-"
    try:
        o["B"] = str(bool(v))
    except Exception:
        o["B"] = "-"
    o["L"] = "-"
    if isinstance(v, (list, tuple, str, bytes, array.array, range)):
        o["L"] = h(plain(list(v)))
    o["A"] = type(v).__name__ + h(plain(v))
    return o


class Run:
    def __init__(self, T):
        self.T = T
        self.last = None

    def call(self, cmd, kw, pos=(), valid=False):
        if huge(cmd, kw):
            return False
        args = [dict(n=k, **views(v)) for k, v in kw.items()]
        ev = dict(op="call", cmd=cmd, pos=len(pos), args=args, valid=valid)
        self.T.begin(dict(ev, raw=repr(kw)[:300]))
        ret, err = "", "none"
        try:
            r = getattr(ds, cmd)(*pos, **kw)
            ret = "" if cmd == "symdiff" else h(plain(r))
        except ds.error as e:
            err = "error"
            ev["why"] = str(e)[:160].encode("utf-8", "backslashreplace").decode()
        except BaseException as e:
            err = type(e).__name__
        self.T.emit(err=err, ret=ret, **ev)
        return err == "none"

    def see(self):
        self.T.begin({"op": "see"})
        v, full = world()
        if os.environ.get("LOUD"):
            self.dump(v, full)
        self.T.emit(op="see", v=v)

    def dump(self, v, full):
        d = os.environ["LOUD"]
        p = os.path.join(d, v)
        if not os.path.exists(p):
            with open(p, "w") as f:
                for x in full:
                    for y in (x if isinstance(x, list) else [x]):
                        if isinstance(y, list):
                            for z in y:
                                f.write(repr(z) + "\n")
                        else:
                            f.write(repr(y) + "\n")


FLOATS = {"pos", "ns", "ps", "xl", "xh", "yl", "yh", "bloat", "acreal", "acimag", "frequency", "absolute_error", "relative_error",
          "maximum_error", "tdelta", "charge_error", "gamma"}
INTS = {"maximum_iterations", "index", "nargs", "maximum_divergence", "symbolic_iteration_limit"}
LISTS = {"values", "nodes0", "nodes1", "coordinates", "elements", "physical_names"}
BOOLS = {"info", "reorder"}


def kind(cmd, k):
    if k in FLOATS or (k == "value" and cmd not in ("set_parameter",)):
        return "F"
    return "I" if k in INTS else "L" if k in LISTS else "B" if k in BOOLS else "S"


RAW = {("set_parameter", "value"), ("custom_equation", "procedure"), ("register_function", "procedure"), ("write_devices", "include_test")}
DEFAULTS = {"add_circuit_node": {"variable_update": "default", "value": 0.0},
            "circuit_element": {"value": 0.0, "acreal": 0.0, "acimag": 0.0},
            "circuit_alter": {"param": "value"},
            "get_circuit_node_value": {"solution": "dcop"}, "set_circuit_node_value": {"solution": "dcop", "value": 0.0},
            "equation": {"variable_update": "default", "node_model": "", "edge_model": "", "element_model": "", "edge_volume_model": "",
                         "time_node_model": "", "volume_node0_model": "", "volume_node1_model": ""},
            "contact_equation": {"circuit_node": "", "node_model": "", "edge_model": "", "element_model": "", "edge_charge_model": "",
                                 "node_current_model": "", "element_current_model": ""},
            "interface_equation": {"name0": "", "name1": "", "interface_model": ""},
            "solve": {"absolute_error": 0, "relative_error": 0, "maximum_error": 1.7976931348623157e308, "maximum_iterations": 20,
                      "maximum_divergence": 20, "symbolic_iteration_limit": 1, "frequency": 0.0, "solver_type": "direct", "tdelta": 0.0,
                      "charge_error": 0.0, "gamma": 1.0, "info": False, "output_node": ""},
            "add_1d_mesh_line": {"ns": 0, "tag": ""}, "add_2d_mesh_line": {"ns": 0, "ps": 0},
            "add_2d_region": {"xl": -1.7976931348623157e308, "yh": 1.7976931348623157e308, "bloat": 1e-10},
            "add_2d_contact": {"yl": -1.7976931348623157e308, "yh": 1.7976931348623157e308, "bloat": 1e-10},
            "add_2d_interface": {"xl": -1.7976931348623157e308, "xh": 1.7976931348623157e308, "bloat": 1e-10},
            "edge_average_model": {"average_type": "arithmetic", "derivative": ""},
            "edge_from_node_model": {"calc_type": "default"}, "vector_gradient": {"calc_type": "default"},
            "element_from_node_model": {"calc_type": "default"},
            "element_from_edge_model": {"derivative": ""}, "element_pair_from_edge_model": {"derivative": ""},
            "set_node_value": {"index": -1}, "node_model": {"display_type": ""}, "edge_model": {"display_type": ""},
            "element_model": {"display_type": ""}, "contact_node_model": {"display_type": ""}, "contact_edge_model": {"display_type": ""},
            "set_node_values": {"init_from": ""}, "set_edge_values": {"init_from": ""}, "set_element_values": {"init_from": ""},
            "write_devices": {"device": "", "type": "devsim"}, "get_matrix_and_rhs": {"format": "csc"},
            "get_parameter": {"device": "", "region": ""}, "set_parameter": {"device": "", "region": ""},
            "set_material": {"contact": "", "region": ""}, "get_material": {"contact": "", "region": ""},
            "get_element_node_list": {"contact": "", "interface": "", "reorder": False},
            "get_equation_numbers": {"equation": "", "variable": ""}}


def same(rng, cmd, kw):
    """The same command, written in another way."""
    out = {}
    for k, v in kw.items():
        t = kind(cmd, k)
        d = DEFAULTS.get(cmd, {})
        if k in d and d[k] == v and rng.random() < 0.4:
            continue
        if (cmd, k) in RAW or rng.random() < 0.5:
            out[k] = v
        elif t == "F":
            out[k] = rng.choice([v, repr(v), int(v) if v == int(v) else v, repr(v).encode() if False else v, v + 0.0])
        elif t == "I":
            out[k] = rng.choice([v, str(v), str(v).encode()])
        elif t == "L":
            out[k] = rng.choice([tuple(v), list(v)])
        elif t == "B":
            out[k] = rng.choice([1, True, "x", [0]]) if v else rng.choice([0, "", None, False, []])
        else:
            out[k] = rng.choice([v, v.encode(), v])
    for k, v in DEFAULTS.get(cmd, {}).items():
        if k not in kw and rng.random() < 0.35:
            out[k] = v
    if rng.random() < 0.5:
        it = list(out.items())
        rng.shuffle(it)
        out = dict(it)
    return out


def wrong(rng, cmd, kw, words):
    """The same command, spoiled: (keywords, positional arguments)."""
    out = dict(kw)
    how = rng.choice("nnrrttttppswwwwwwwwvvv")
    if how == "n":
        out[rng.choice(["zzz", "Name", "device_", "names", "region0", "ns", "value", "contact", "mesh", "tag", "", "\udc80", "typ", "equation"])] = \
            rng.choice(["a", 1, None, Mute()])
    elif how == "r" and out:
        out.pop(rng.choice(sorted(out)))
    elif how == "t":
        typed = [k for k in out if kind(cmd, k) in "FILB"] + [k for k in DEFAULTS.get(cmd, {}) if kind(cmd, k) in "FILB"]
        if typed:
            out[rng.choice(typed)] = rng.choice(["abc", None, Odd(), [], {}, 1.5, 2 ** 31, -2 ** 31 - 1, 2 ** 80, "1e3", "12abc", "", "nan(", b"q", Mute(),
                                                 "\udc80", 3 + 0j, {1: 2}, set()])
        elif out:
            out[rng.choice(sorted(out))] = rng.choice([None, Odd(), "\udc80", Mute(), {}, 0, b"", ""])
    elif how == "p":
        return out, rng.choice([("x",), (1, 2), (None,), (dict(out),)])
    elif how == "s" and out:
        out[rng.choice(sorted(out))] = rng.choice([Odd(), "\udc80", Mute(), "", None, "a" * 300, "no such", "@", "x@n0", "*", "1"])
    elif how == "w":          # another name that means something, or nothing, here
        st = [k for k in out if kind(cmd, k) == "S" and (cmd, k) not in RAW and k != "file"]
        for k in rng.sample(st, min(len(st), rng.choice([1, 1, 1, 2, 2, 3]))):
            x = rng.random()
            out[k] = rng.choice(words.get(k) or words["all"]) if x < 0.55 else rng.choice(words["all"]) if x < 0.9 else rng.choice(["nosuch", ""])
    elif how == "v":
        for k in list(out):
            t = kind(cmd, k)
            if rng.random() < 0.5 and t in "FIL" and (cmd, k) not in RAW:
                if t == "F":
                    out[k] = rng.choice([-1.0, 0.0, 1e300, 5.0, -out[k]])
                elif t == "I":
                    out[k] = rng.choice([0, 1, 40, 2] if k == "maximum_iterations" else [-1, 0, 1, 1000, -2, 2])
                elif cmd != "create_gmsh_mesh":
                    out[k] = rng.choice([[], [1.0], [1, 2, 3, 4, 5, 6, 7], ["a"], [None, None], [[1], [2]], [0.5, "2", 1], [-1], [2], [100]])
                else:
                    out[k] = rng.choice([[], list(out[k])[:-1], list(out[k])[1:], ["a"], [None], list(out[k]) + [7]])
    return out, ()


def huge(cmd, kw):
    """A mesh nobody has the memory for, a solve nobody has the time for."""
    if cmd == "solve" and "maximum_iterations" in kw:
        try:
            return not 0 <= int(kw["maximum_iterations"]) <= 50
        except Exception:
            return False
    if not cmd.endswith("mesh_line"):
        return False
    for k in ("pos", "ns", "ps"):
        try:
            if k in kw and not (abs(float(kw[k])) < 100 and (k == "pos" or abs(float(kw[k])) > 0.01 or float(kw[k]) == 0)):
                return True
        except Exception:
            pass
    return False


def signatures():
    """The options the specification lists for each command: {command: {option: (type, needed)}}."""
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Signatures.tla")) as f:
        t = f.read()
    out = {}
    for m in re.finditer(r"^  (\w+) \|-> (<<>>|\[[^]]*\])", t, re.M):
        out[m.group(1)] = {n: (ty, k == "Need") for n, k, ty in re.findall(r'(\w+) \|-> (Need|Opt)\("(\w)"', m.group(2))}
    return out


ODD = [None, "abc", 1.5, 7, 2 ** 31, -2 ** 31 - 1, 2 ** 90, "1e3", "12", "12abc", " 3 ", "", b"", b"q", "\udc80", 3 + 0j, {}, {1: 2}, set(), [], (1, 2),
       [1.0, None], ["a", "b"], True, False, float("inf"), float("nan"), "inf", "0x10", range(3), array.array("d", [1.0, 2.0]), Odd(), Mute(), print]


def table(rng, R, S, words, rounds):
    """Every command and option of the table, with every kind of value, in some state."""
    sig = signatures()
    for rnd in range(rounds):
        for c, kw in S[:rng.choice([0, rng.randrange(len(S)), len(S) - 12])]:
            R.call(c, kw)
        R.see()
        n = 0
        for cmd in rng.sample(sorted(sig), len(sig)):
            if cmd in ("reset_devsim", "load_devices", "write_devices"):
                continue
            opts = sig[cmd]
            base = [kw for c, kw in S if c == cmd]
            base = dict(rng.choice(base)) if base else {o: (rng.choice(words[o]) if o in words else 1.0 if t == "F" else [] if t == "L" else 1)
                                                        for o, (t, need) in opts.items() if need}
            tries = []
            for o in opts:
                for v in rng.sample(ODD, 3):
                    tries.append((dict(base, **{o: v}), ()))
                if o in base:
                    tries.append(({k: v for k, v in base.items() if k != o}, ()))
            others = sorted({x for q in sig.values() for x in q} - set(opts))
            tries += [(dict(base, **{rng.choice(others): rng.choice(["a", 1.0])}), ()) for j in range(2)] + [(base, ("a",)), (dict(base, zzz=1), ())]
            if not base:
                tries.append(({}, ()))
            for kw, pos in rng.sample(tries, min(len(tries), 6)):
                R.call(cmd, kw, pos)
                n += 1
                if n % 6 == 0:
                    R.see()
        R.see()
        R.call("reset_devsim", {})
        R.see()


def run(argv):
    mode, seed, passes, dens = argv[0], int(argv[1]), int(argv[2]), float(argv[3])
    rng = random.Random(seed)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    tmp = tempfile.mkdtemp(prefix="vsession")
    os.chdir(tmp)
    null = os.open("/dev/null", os.O_WRONLY)
    if not os.environ.get("LOUD"):
        os.dup2(null, 1)
    T = drv.Tracer()
    T.emit(op="reset")
    R = Run(T)
    S = script()
    words = {}
    for c, kw in S:
        for k, v in kw.items():
            if isinstance(v, str) and k not in ("file", "expr"):
                for w in {k, "all", "name" if k.endswith("_model") else k, "edge_model" if k == "node_model" else k}:
                    words.setdefault(w, set()).add(v)
    for n in ("u@n0", "u@n1", "w@n0", "we:w@n1", "x", "y", "node_index", "NodeVolume", "uavg", "uavg:u@n0", "we_x", "em", "flux:u", "bc0:u", "u_x"):
        for w in ("name", "node_model", "edge_model", "element_model", "all"):
            words[w].add(n)
    words = {k: sorted(v) for k, v in words.items()}
    if mode == "table":
        table(rng, R, S, words, passes)
        passes = 0
        S = []
    ds.symdiff(expr="declare(twice(x))")
    R.see()
    for c, kw in S:
        R.call(c, kw, valid=True)
        R.see()
    for p in range(passes):
        if rng.random() < 0.5:           # any history at all before the reset
            ok = True
            n = rng.randrange(1, len(S))
            for c, kw in S[:n]:
                x = rng.random()
                if x < 0.3:
                    kw2, pos = wrong(rng, c, kw, words)
                    R.call(c, kw2, pos)
                    if rng.random() < 0.15:
                        R.see()
                elif x < 0.95:
                    R.call(c, kw)
            if rng.random() < 0.5:
                for c, kw in rng.sample(S, rng.randrange(0, 30)):
                    R.call(c, kw)
            R.see()
        R.call("reset_devsim", {})
        if rng.random() < 0.9:
            R.see()
        on = True
        for c, kw in S:
            while rng.random() < dens:
                kw2, pos = wrong(rng, c, kw, words)
                if rng.random() < 0.2:
                    c2, kw3 = rng.choice(S)
                    kw2, pos = wrong(rng, c2, kw3, words)
                else:
                    c2 = c
                done = R.call(c2, kw2, pos)
                if done and not c2.startswith(("get_", "print_", "symdiff")):
                    on = False
                if rng.random() < 0.7:
                    R.see()
                if not on:
                    break
            if not on:
                if rng.random() < 0.6:
                    break
                R.call(c, kw)
                continue
            R.call(c, same(rng, c, kw))
            if rng.random() < 0.6:
                R.see()
    os.chdir("/")
    shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    drv.main(run)
