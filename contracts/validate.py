"""Validation of a model (C13, C05, C17)."""


@spec
def routed(l):
    return isobj(l.path)


@spec
def lsps_ok(m):
    """every LSP is unrouted or has a record whose path lists interfaces of the model, each once, and a numeric reservation"""
    return all(implies(routed(l), distinct(l.path["interfaces"]) and isnum(l.reserved_bandwidth)
                       and all(i in m.interface_objects for i in l.path["interfaces"]))
               and (routed(l) or contains("Unrouted", l.path)) for l in m.rsvp_lsp_objects)


@spec
def reserved_on(m, i):
    """the sum of the reserved bandwidth of the routed LSPs that cross i"""
    return sumof([l.reserved_bandwidth for l in m.rsvp_lsp_objects if routed(l) and i in l.path["interfaces"]])


@contract("_MasterModel._make_int_info_dict", props=["C13", "C05"],
          types={"int_info": "dict[tuple[str,str],rec{lsps:list[RSVP_LSP],reserved_bandwidth:real}]"})
def c(self: "PerformanceModel|FlexModel") -> "dict[tuple[str,str],rec{lsps:list[RSVP_LSP],reserved_bandwidth:real}]":
    requires(lsps_ok(self))
    uniq = intf_keys_unique(self)
    loop(1, all(i._key in int_info for i in self.interface_objects))
    loop(1, implies(uniq, all(int_info[i._key]["reserved_bandwidth"] == sumof([l.reserved_bandwidth for l in _done if i in l.path["interfaces"]])
                for i in self.interface_objects)))
    loop(2, all(i._key in int_info for i in self.interface_objects))
    loop(2, implies(uniq, all(implies(i in _done, int_info[i._key]["reserved_bandwidth"] == lsp.reserved_bandwidth + sumof([l.reserved_bandwidth for l in _done1 if i in l.path["interfaces"]]))
                for i in self.interface_objects)))
    loop(2, implies(uniq, all(implies(i not in _done, int_info[i._key]["reserved_bandwidth"] == sumof([l.reserved_bandwidth for l in _done1 if i in l.path["interfaces"]]))
                for i in self.interface_objects)))
    ensures(all(i._key in result for i in self.interface_objects))
    ensures(implies(uniq, all(result[i._key]["reserved_bandwidth"] == reserved_on(self, i) for i in self.interface_objects)))


@contract("PerformanceModel._multiple_links_between_nodes", props=["C13"])
def c(self: "PerformanceModel") -> "list[str]":
    ensures(iff(any(True for x in result), not no_parallel(self)))


@spec
def names_clash(m, n):
    """two interfaces of node n have one name"""
    return exists("Interface", "Interface", lambda a, b: a in m.interface_objects and b in m.interface_objects and a.node_object.name == n.name
                  and b.node_object.name == n.name and a.name == b.name and not same(a, b))


@contract("_MasterModel._unique_interface_per_node", props=["C13"], types={"node_int_list": "list[str]", "exception_interfaces": "set[tuple[Node,str]]"})
def c(self: "PerformanceModel|FlexModel"):
    loop(1, iff(any(True for x in exception_interfaces), any(names_clash(self, n) for n in _done)))
    loop(2, len(node_int_list) + len(_done) == len([i for i in self.interface_objects if i.node_object.name == node.name]))
    loop(2, all(x in node_int_list for x in node_int_set if x not in _done))
    loop(3, implies(any(True for x in exception_interfaces), any(names_clash(self, n) for n in _done1) or any(True for x in _done)))
    loop(3, implies(any(True for x in _done), any(True for x in exception_interfaces)))
    loop(3, implies(any(names_clash(self, n) for n in _done1), any(True for x in exception_interfaces)))
    ensures(iff(same(result, True), not any(names_clash(self, n) for n in self.node_objects)))


@spec
def overbooked(i):
    """the interface reserves more than its capacity, by more than rounding"""
    return round(i._reserved_bandwidth, 1) - i._capacity > 0.2


@spec
def misreserved(m, i):
    """the interface's reservation is not that of its LSPs, by more than rounding"""
    return abs(round(i._reserved_bandwidth, 1) - round(reserved_on(m, i), 1)) > 0.15


@spec
def sides_differ(m, i):
    """the other end of the interface has another capacity"""
    return any(opp(i, j) and i.circuit_id == j.circuit_id and i._capacity != j._capacity for j in m.interface_objects)


@contract("PerformanceModel.validate_model", props=["C13", "C05", "C17"], types={"error_data": "list[any]", "circuits_with_mismatched_interface_capacity": "list[Circuit]",
          "int_res_bw_too_high": "set[Interface]", "int_res_bw_sum_error": "set[any]"}, allocates=True)
def c(self: "PerformanceModel") -> "PerformanceModel":
    requires(no_loops(self) and lsps_ok(self))
    high = any(overbooked(i) for i in self.interface_objects)
    off = any(misreserved(self, i) for i in self.interface_objects)
    clash = any(names_clash(self, n) for n in self.node_objects)
    lonely = any(not any(opp(i, j) for j in self.interface_objects) for i in self.interface_objects)
    differ = any(any(opp(i, j) and i._capacity != j._capacity for j in self.interface_objects) for i in self.interface_objects)
    raises(ModelException, lonely or differ or clash or not nodes_unique(self) or not no_parallel(self) or high or (intf_keys_unique(self) and off)
           or any(n._igp_shortcuts_enabled for n in self.node_objects))
    modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    modifies("Interface.circuit_id", lambda r: r in self.interface_objects)
    modifies("_MasterModel.circuit_objects", lambda r: same(r, self))
    modifies("Interface._failed", lambda r: r in self.interface_objects and any(opp(r, j) and r._failed != j._failed for j in self.interface_objects))
    modifies("Interface._reserved_bandwidth", lambda r: r in self.interface_objects and any(opp(r, j) and r._failed != j._failed for j in self.interface_objects))
    raise_modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    raise_modifies("Interface.circuit_id", lambda r: r in self.interface_objects)
    raise_modifies("_MasterModel.circuit_objects", lambda r: same(r, self))
    raise_modifies("Interface._failed", lambda r: r in self.interface_objects and any(opp(r, j) and r._failed != j._failed for j in self.interface_objects))
    raise_modifies("Interface._reserved_bandwidth", lambda r: r in self.interface_objects and any(opp(r, j) and r._failed != j._failed for j in self.interface_objects))
    loop(1, iff(any(True for x in int_res_bw_too_high), any(overbooked(i) for i in _done)))
    loop(1, implies(intf_keys_unique(self), iff(any(True for x in int_res_bw_sum_error), any(misreserved(self, i) for i in _done))))
    loop(2, all(implies(k not in _done, k.interface_a._failed == old(k.interface_a._failed) and k.interface_b._failed == old(k.interface_b._failed)) for k in self.circuit_objects))
    loop(2, iff(any(True for x in circuits_with_mismatched_interface_capacity), any(k.interface_a._capacity != k.interface_b._capacity for k in _done)))
    ensures(same(result, self))
    ensures(circuits_ok(self))
    ensures(mates(self))
    ensures(all(not misreserved(self, i) and not overbooked(i) for i in self.interface_objects))


@contract("FlexModel.validate_model", props=["C13", "C05", "C17"], types={"error_data": "list[any]", "circuits_with_mismatched_interface_capacity": "list[Circuit]",
          "int_res_bw_too_high": "set[Interface]", "int_res_bw_sum_error": "set[any]"}, allocates=True)
def c(self: "FlexModel") -> "FlexModel":
    requires(no_loops(self) and lsps_ok(self))
    requires(all(not isnone(i.circuit_id) for i in self.interface_objects))
    high = any(overbooked(i) for i in self.interface_objects)
    off = any(misreserved(self, i) for i in self.interface_objects)
    clash = any(names_clash(self, n) for n in self.node_objects)
    twins = any(any(same_link(i, j) and not same(i, j) for j in self.interface_objects) for i in self.interface_objects)
    lonely = any(not any(opp(i, j) and i.circuit_id == j.circuit_id for j in self.interface_objects) for i in self.interface_objects)
    differ = any(sides_differ(self, i) for i in self.interface_objects)
    raises(ModelException, twins or lonely or differ or clash or not nodes_unique(self) or high or (intf_keys_unique(self) and off))
    modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    modifies("_MasterModel.circuit_objects", lambda r: same(r, self))
    modifies("Interface._failed", lambda r: r in self.interface_objects and any(opp(r, j) and r.circuit_id == j.circuit_id and r._failed != j._failed for j in self.interface_objects))
    modifies("Interface._reserved_bandwidth", lambda r: r in self.interface_objects and any(opp(r, j) and r.circuit_id == j.circuit_id and r._failed != j._failed for j in self.interface_objects))
    raise_modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    raise_modifies("_MasterModel.circuit_objects", lambda r: same(r, self))
    raise_modifies("Interface._failed", lambda r: r in self.interface_objects and any(opp(r, j) and r.circuit_id == j.circuit_id and r._failed != j._failed for j in self.interface_objects))
    raise_modifies("Interface._reserved_bandwidth", lambda r: r in self.interface_objects and any(opp(r, j) and r.circuit_id == j.circuit_id and r._failed != j._failed for j in self.interface_objects))
    loop(1, iff(any(True for x in int_res_bw_too_high), any(overbooked(i) for i in _done)))
    loop(1, implies(intf_keys_unique(self), iff(any(True for x in int_res_bw_sum_error), any(misreserved(self, i) for i in _done))))
    loop(2, all(implies(k not in _done, k.interface_a._failed == old(k.interface_a._failed) and k.interface_b._failed == old(k.interface_b._failed)) for k in self.circuit_objects))
    loop(2, iff(any(True for x in circuits_with_mismatched_interface_capacity), any(k.interface_a._capacity != k.interface_b._capacity for k in _done)))
    ensures(same(result, self))
    ensures(joined(self, self.circuit_objects) and disjoint(self.circuit_objects))
    ensures(all(inside(i, self.circuit_objects) for i in self.interface_objects))
    ensures(implies(ids_clear(self), one_id(self.circuit_objects) and mates(self)))
    ensures(all(not misreserved(self, i) and not overbooked(i) for i in self.interface_objects))


@spec
def sound(m):
    """the conditions under which validate_model accepts the model"""
    same_for_both = (no_loops(m) and lsps_ok(m) and nodes_unique(m) and intf_keys_unique(m)
                     and not any(overbooked(i) or misreserved(m, i) for i in m.interface_objects))
    perf = (no_parallel(m) and not any(n._igp_shortcuts_enabled for n in m.node_objects)
            and all(any(opp(i, j) for j in m.interface_objects) for i in m.interface_objects)
            and not any(any(opp(i, j) and i._capacity != j._capacity for j in m.interface_objects) for i in m.interface_objects))
    flex = (all(not isnone(i.circuit_id) for i in m.interface_objects) and ids_clear(m)
            and not any(any(same_link(i, j) and not same(i, j) for j in m.interface_objects) for i in m.interface_objects)
            and all(any(opp(i, j) and i.circuit_id == j.circuit_id for j in m.interface_objects) for i in m.interface_objects)
            and not any(sides_differ(m, i) for i in m.interface_objects))
    return same_for_both and ite(cls(m, "PerformanceModel"), perf, flex)


@spec
def blocked(i):
    """the interface is in a failed SRLG"""
    return any(s._failed for s in i._srlgs)


@spec
def other_end(m, i, j):
    return opp(i, j) and (cls(m, "PerformanceModel") or i.circuit_id == j.circuit_id)


@spec
def settled(m):
    """a valid model whose failure states are consistent: the ends of each circuit agree, failed interfaces reserve nothing"""
    return (ends_in_model(m) and sound(m)
            and forall("Interface", "Interface", lambda i, j: implies(
                i in m.interface_objects and j in m.interface_objects and other_end(m, i, j), iff(i._failed, j._failed)))
            and forall("Interface", "Interface", "SRLG", lambda i, j, s: implies(
                i in m.interface_objects and j in m.interface_objects and other_end(m, i, j), iff(s in i._srlgs, s in j._srlgs))))


@contract("_MasterModel.unfail_interface", props=["C09", "C10", "C11"])
def c(self: "PerformanceModel|FlexModel", interface_name: "str", node_name: "str", raise_exception: "bool"):
    default("raise_exception", False)
    requires(settled(self) and mates(self))
    requires(all(implies(is_intf(self, i, interface_name, node_name), i._reserved_bandwidth == 0 and all(implies(other_end(self, i, j), j._reserved_bandwidth == 0) for j in self.interface_objects)) for i in self.interface_objects))
    there = any(is_intf(self, i, interface_name, node_name) for i in self.interface_objects)
    down = any(is_intf(self, i, interface_name, node_name) and (i.node_object._failed or i.remote_node_object._failed) for i in self.interface_objects)
    stuck = any(is_intf(self, i, interface_name, node_name) and blocked(i) for i in self.interface_objects)
    raises(ModelException, not there or (down and raise_exception) or (not down and stuck))
    updates("Interface._failed", lambda r: r in self.interface_objects and not down and any(is_intf(self, i, interface_name, node_name) and (same(i, r) or other_end(self, i, r)) for i in self.interface_objects), False)
    on_raise("Interface._failed", lambda r: r in self.interface_objects and not down and any(is_intf(self, i, interface_name, node_name) and other_end(self, i, r) for i in self.interface_objects), True)
    modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    modifies("Interface.circuit_id", lambda r: r in self.interface_objects and cls(self, "PerformanceModel"))
    modifies("_MasterModel.circuit_objects", lambda r: same(r, self))
    ensures(mates(self))


@spec
def revived(m, r, e):
    """restoring e, an interface of the restored node, restores r"""
    return not blocked(e) and not e.remote_node_object._failed and (same(e, r) or other_end(m, e, r))


@contract("_MasterModel.unfail_node", props=["C10", "C11"])
def c(self: "PerformanceModel|FlexModel", node_name: "str"):
    requires(settled(self) and mates(self))
    requires(all(implies(i.node_object.name == node_name or i.remote_node_object.name == node_name, i._reserved_bandwidth == 0) for i in self.interface_objects))
    there = any(n.name == node_name for n in self.node_objects)
    stuck = any(n.name == node_name and any(s._failed for s in n._srlgs) for n in self.node_objects)
    raises(ModelException, not there or stuck)
    updates("Node._failed", lambda r: r in self.node_objects and r.name == node_name, False)
    on_raise("Node._failed", lambda r: r in self.node_objects and r.name == node_name, True)
    updates("Interface._failed", lambda r: r in self.interface_objects and not blocked(r) and (
        (r.node_object.name == node_name and not r.remote_node_object._failed) or (r.remote_node_object.name == node_name and not r.node_object._failed)), False)
    modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    modifies("Interface.circuit_id", lambda r: r in self.interface_objects and cls(self, "PerformanceModel"))
    modifies("_MasterModel.circuit_objects", lambda r: same(r, self))
    loop(1, settled(self) and mates(self))
    step(1, implies(not blocked(_it) and not _it.remote_node_object._failed, all(implies(same(_it, r) or other_end(self, _it, r), not r._failed) for r in self.interface_objects)))
    loop(1, all(iff(r._failed, old(r._failed) and not any(revived(self, r, e) for e in _done)) for r in self.interface_objects))
    ensures(mates(self))


@spec
def held(n):
    """the node is in a failed SRLG"""
    return any(s._failed for s in n._srlgs)


@spec
def member(m, x, srlg_name):
    return any(s.name == srlg_name and s in x._srlgs for s in m.srlg_objects)


@spec
def back(m, r, nodes):
    """the circuit of r can come back: it is in no failed SRLG, both its nodes are up and one of them is one of the nodes"""
    return (not blocked(r) and not r.node_object._failed and not r.remote_node_object._failed
            and ((r.node_object in nodes and not held(r.node_object)) or (r.remote_node_object in nodes and not held(r.remote_node_object))))


@contract("_MasterModel.unfail_srlg", props=["C11"])
def c(self: "PerformanceModel|FlexModel", srlg_name: "str"):
    requires(settled(self) and mates(self) and srlgs_unique(self))
    requires(all(same(s.model, self) for s in self.srlg_objects))
    requires(all(implies(held(n), n._failed) for n in self.node_objects) and all(implies(blocked(i), i._failed) for i in self.interface_objects))
    requires(all(implies(member(self, i, srlg_name) or member(self, i.node_object, srlg_name) or member(self, i.remote_node_object, srlg_name), i._reserved_bandwidth == 0) for i in self.interface_objects))
    hit = {n for n in self.node_objects if member(self, n, srlg_name)}
    raises(ModelException, not any(s.name == srlg_name for s in self.srlg_objects))
    updates("SRLG._failed", lambda r: r in self.srlg_objects and r.name == srlg_name, False)
    modifies("Node._failed", lambda r: r in hit)
    modifies("Interface._failed", lambda r: r in self.interface_objects)
    modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    modifies("Interface.circuit_id", lambda r: r in self.interface_objects and cls(self, "PerformanceModel"))
    modifies("_MasterModel.circuit_objects", lambda r: same(r, self))
    loop(1, settled(self) and mates(self))
    loop(1, all(iff(n._failed, old(n._failed) and not (n in _done and not held(n))) for n in self.node_objects))
    loop(1, all(iff(r._failed, old(r._failed) and not back(self, r, _done)) for r in self.interface_objects))
    loop(2, settled(self) and mates(self))
    step(2, implies(not blocked(_it) and not _it.node_object._failed and not _it.remote_node_object._failed, all(implies(same(_it, r) or other_end(self, _it, r), not r._failed) for r in self.interface_objects)))
    loop(2, all(iff(r._failed, old(r._failed) and not (back(self, r, hit) or (
        not blocked(r) and not r.node_object._failed and not r.remote_node_object._failed and any(same(e, r) or other_end(self, e, r) for e in _done)))) for r in self.interface_objects))
    ensures(all(iff(n._failed, old(n._failed) and not (member(self, n, srlg_name) and not held(n))) for n in self.node_objects))
    ensures(all(iff(r._failed, old(r._failed) and not (not blocked(r) and not r.node_object._failed and not r.remote_node_object._failed and (
        member(self, r, srlg_name) or member(self, r.node_object, srlg_name) or member(self, r.remote_node_object, srlg_name)))) for r in self.interface_objects))
