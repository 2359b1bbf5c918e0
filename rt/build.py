"""Builds real pyNTM models from plain case descriptions and applies operation
histories to them.  A case is a JSON-able dict, so that a failing one can be
written to a replay file and run again."""
import contextlib
import io
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from pyNTM import (  # noqa: E402
    Demand, FlexModel, Interface, Model, ModelException, Node, Parallel_Link_Model,
    PerformanceModel, RSVP_LSP, SRLG)

CLASSES = {"P": PerformanceModel, "F": FlexModel, "M": Model, "L": Parallel_Link_Model}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def is_flex(m):
    return isinstance(m, FlexModel)


def build(case):
    nodes = {}
    for n in case["nodes"]:
        nd = Node(n["name"], n.get("lat", 0), n.get("lon", 0))
        if n.get("sc"):
            nd.igp_shortcuts_enabled = True
        nodes[n["name"]] = nd
    ints = set()
    for l in case["links"]:
        for a, b, nm, c in ((l["a"], l["b"], l["na"], l["ca"]), (l["b"], l["a"], l["nb"], l["cb"])):
            i = Interface(nm, c, l["cap"], nodes[a], nodes[b], l.get("cid"),
                          l.get("rsvp", True), l.get("pct", 100))
            ints.add(i)
    dmds = {Demand(nodes[s], nodes[d], t, nm) for s, d, t, nm in case["demands"]}
    lsps = {RSVP_LSP(nodes[s], nodes[d], nm, cfg, met) for s, d, nm, cfg, met in case["lsps"]}
    return CLASSES[case["cls"]](ints, set(nodes.values()), dmds, lsps)


# ---- attribute access that does not go through the code under test
def iname(i):
    return "%s:%s" % (i.node_object.name, i.name)


def find_int(m, node, name):
    for i in m.interface_objects:
        if i.name == name and i.node_object.name == node:
            return i


def find_node(m, name):
    for n in m.node_objects:
        if n.name == name:
            return n


def find_dmd(m, s, d, nm):
    for x in m.demand_objects:
        if (x.source_node_object.name, x.dest_node_object.name, x.name) == (s, d, nm):
            return x


def find_lsp(m, s, d, nm):
    for x in m.rsvp_lsp_objects:
        if (x.source_node_object.name, x.dest_node_object.name, x.lsp_name) == (s, d, nm):
            return x


def find_srlg(m, nm):
    for x in m.srlg_objects:
        if x.name == nm:
            return x


def remote(m, i):
    """The other end of i's circuit, from the definition."""
    c = [j for j in m.interface_objects if j is not i and j.node_object.name == i.remote_node_object.name
         and j.remote_node_object.name == i.node_object.name and j.circuit_id == i.circuit_id]
    if not is_flex(m):
        c = [j for j in m.interface_objects if j.node_object.name == i.remote_node_object.name
             and j.remote_node_object.name == i.node_object.name]
    return c[0] if len(c) == 1 else None


def apply_op(m, op):
    """Applies one operation; returns (exception or None, value)."""
    k, a = op[0], op[1:]
    try:
        with quiet():
            if k == "update":
                v = m.update_simulation()
            elif k == "fail_int":
                v = m.fail_interface(a[1], a[0])
            elif k == "unfail_int":
                v = m.unfail_interface(a[1], a[0], *a[2:])
            elif k == "ifail":
                v = find_int(m, a[0], a[1]).fail_interface(m)
            elif k == "iunfail":
                v = find_int(m, a[0], a[1]).unfail_interface(m)
            elif k == "fail_node":
                v = m.fail_node(a[0])
            elif k == "unfail_node":
                v = m.unfail_node(a[0])
            elif k == "fail_srlg":
                v = m.fail_srlg(a[0])
            elif k == "unfail_srlg":
                v = m.unfail_srlg(a[0])
            elif k == "add_srlg":
                v = m.add_srlg(a[0])
            elif k == "srlg_add_node":
                v = find_node(m, a[1]).add_to_srlg(a[0], m, create_if_not_present=True)
            elif k == "srlg_add_int":
                v = find_int(m, a[1], a[2]).add_to_srlg(a[0], m, create_if_not_present=True)
            elif k == "srlg_rm_node":
                v = find_node(m, a[1]).remove_from_srlg(a[0], m)
            elif k == "srlg_rm_int":
                v = find_int(m, a[1], a[2]).remove_from_srlg(a[0], m)
            elif k == "add_demand":
                v = m.add_demand(*a)
            elif k == "rm_demand":
                m.demand_objects.discard(find_dmd(m, *a))
                v = None
            elif k == "set_traffic":
                find_dmd(m, *a[:3]).traffic = a[3]
                v = None
            elif k == "add_lsp":
                v = m.add_rsvp_lsp(*a)
            elif k == "rm_lsp":
                m.rsvp_lsp_objects.discard(find_lsp(m, *a))
                v = None
            elif k == "lsp_metric":
                find_lsp(m, *a[:3]).manual_metric = a[3]
                v = None
            elif k == "lsp_cfg":
                find_lsp(m, *a[:3]).configured_setup_bandwidth = a[3]
                v = None
            elif k == "set_cost":
                find_int(m, a[0], a[1]).cost = a[2]
                v = None
            elif k == "set_pct":
                find_int(m, a[0], a[1]).percent_reservable_bandwidth = a[2]
                v = None
            elif k == "set_rsvp":
                find_int(m, a[0], a[1]).rsvp_enabled = a[2]
                v = None
            elif k == "set_cap":
                i = find_int(m, a[0], a[1])
                j = remote(m, i)
                i.capacity = a[2]
                j.capacity = a[2]
                v = None
            elif k == "shortcut":
                find_node(m, a[0]).igp_shortcuts_enabled = a[1]
                v = None
            elif k == "rename_int":
                v = m.change_interface_name(*a)
            elif k == "add_node":
                v = m.add_node(Node(a[0]))
            elif k == "add_circuit":
                v = m.add_circuit(find_node(m, a[0]), find_node(m, a[1]), *a[2:6], capacity=a[6], circuit_id=a[7])
            else:
                raise RuntimeError("unknown op %r" % (op,))
        return None, v
    except RuntimeError:
        raise
    except Exception as e:
        return e, None
