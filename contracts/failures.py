"""Failing and restoring interfaces, nodes and SRLGs (C09, C10, C11)."""


@spec
def link(i, j):
    """j is at the far node of i and has its circuit id"""
    return j.node_object.name == i.remote_node_object.name and j.circuit_id == i.circuit_id


@spec
def mates(m):
    """every interface has exactly one other end"""
    some = all(any(link(i, j) and j.remote_node_object.name == i.node_object.name for j in m.interface_objects) for i in m.interface_objects)
    uniq = forall("Interface", "Interface", "Interface", lambda i, j, k: implies(
        i in m.interface_objects and j in m.interface_objects and k in m.interface_objects and link(i, j) and link(i, k), same(j, k)))
    return some and uniq


@spec
def wf(m):
    return nodes_unique(m) and ends_in_model(m) and intf_keys_unique(m) and mates(m)


@spec
def srlg_sym(m):
    """both ends of a circuit are in the same SRLGs"""
    return forall("Interface", "Interface", "SRLG", lambda i, j, s: implies(
        i in m.interface_objects and j in m.interface_objects and link(i, j), iff(s in i._srlgs, s in j._srlgs)))


@spec
def fail_sym(m):
    """both ends of a circuit agree on their failure state"""
    return forall("Interface", "Interface", lambda i, j: implies(
        i in m.interface_objects and j in m.interface_objects and link(i, j), i._failed == j._failed))


@contract("Interface.get_remote_interface", props=["C09", "C11", "C17"])
def c(self: "Interface", model: "PerformanceModel|FlexModel") -> "Interface":
    requires(self in model.interface_objects and mates(model))
    ensures(result in model.interface_objects and link(self, result))
    ensures(result.remote_node_object.name == self.node_object.name)
    ensures(link(result, self))


@contract("Interface.fail_interface", props=["C09"])
def c(self: "Interface", model: "PerformanceModel|FlexModel"):
    requires(self in model.interface_objects and mates(model))
    updates("Interface._failed", lambda r: same(r, self) or (r in model.interface_objects and link(self, r)), True)
    updates("Interface._reserved_bandwidth", lambda r: same(r, self) or (r in model.interface_objects and link(self, r)), 0)


@spec
def ends(m, r, interface_name, node_name):
    """r is the named interface or its other end"""
    return r in m.interface_objects and any(is_intf(m, i, interface_name, node_name) and (same(i, r) or link(i, r)) for i in m.interface_objects)


@contract("_MasterModel.fail_interface", props=["C09", "C10"])
def c(self: "PerformanceModel|FlexModel", interface_name: "str", node_name: "str"):
    requires(wf(self))
    raises(ModelException, not any(is_intf(self, i, interface_name, node_name) for i in self.interface_objects))
    updates("Interface._failed", lambda r: ends(self, r, interface_name, node_name), True)
    updates("Interface._reserved_bandwidth", lambda r: ends(self, r, interface_name, node_name), 0)


@contract("Interface.unfail_interface", props=["C09"])
def c(self: "Interface", model: "PerformanceModel|FlexModel"):
    requires(self in model.interface_objects and wf(model) and srlg_sym(model) and fail_sym(model) and self._failed)
    raises(ModelException, self.node_object._failed or self.remote_node_object._failed or any(s._failed for s in self._srlgs))
    updates("Interface._failed", lambda r: same(r, self) or (r in model.interface_objects and link(self, r)), False)
    on_raise("Interface._reserved_bandwidth", lambda r: same(r, self) and not (self.node_object._failed or self.remote_node_object._failed), 0)


@contract("_MasterModel.fail_node", props=["C10"])
def c(self: "PerformanceModel|FlexModel", node_name: "str"):
    requires(wf(self))
    raises(ModelException, not any(n.name == node_name for n in self.node_objects))
    updates("Interface._failed", lambda r: r in self.interface_objects and (r.node_object.name == node_name or r.remote_node_object.name == node_name), True)
    updates("Interface._reserved_bandwidth", lambda r: r in self.interface_objects and (r.node_object.name == node_name or r.remote_node_object.name == node_name), 0)
    updates("Node._failed", lambda r: r in self.node_objects and r.name == node_name, True)


@contract("_MasterModel.fail_srlg", props=["C11"])
def c(self: "PerformanceModel|FlexModel", srlg_name: "str"):
    requires(wf(self) and srlgs_unique(self))
    requires(all(same(s.model, self) for s in self.srlg_objects))
    hit = {n for n in self.node_objects if any(s.name == srlg_name and s in n._srlgs for s in self.srlg_objects)}
    intf = {i for i in self.interface_objects if any(s.name == srlg_name and s in i._srlgs for s in self.srlg_objects)}
    raises(ModelException, not any(s.name == srlg_name for s in self.srlg_objects))
    updates("SRLG._failed", lambda r: r in self.srlg_objects and r.name == srlg_name, True)
    updates("Node._failed", lambda r: r in hit, True)
    updates("Interface._failed", lambda r: r in self.interface_objects and (
        r.node_object in hit or r.remote_node_object in hit or any(same(i, r) or link(i, r) for i in intf)), True)
    updates("Interface._reserved_bandwidth", lambda r: r in self.interface_objects and (
        r.node_object in hit or r.remote_node_object in hit or any(same(i, r) or link(i, r) for i in intf)), 0)
