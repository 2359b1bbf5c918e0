"""Lookups by name and reports that list model objects (C12, C18)."""


@spec
def nodes_unique(m):
    return forall("Node", "Node", lambda a, b: implies(a in m.node_objects and b in m.node_objects and a.name == b.name, same(a, b)))


@spec
def ends_in_model(m):
    """both end nodes of every interface are the model's own node objects"""
    return forall("Interface", lambda i: implies(i in m.interface_objects,
                                                 i.node_object in m.node_objects and i.remote_node_object in m.node_objects))


@spec
def intf_keys_unique(m):
    return forall("Interface", "Interface", lambda a, b: implies(
        a in m.interface_objects and b in m.interface_objects and a.name == b.name and a.node_object.name == b.node_object.name,
        same(a, b)))


@spec
def is_intf(m, i, interface_name, node_name):
    return i in m.interface_objects and i.name == interface_name and i.node_object.name == node_name


@contract("_MasterModel.get_node_object", props=["C12"])
def c(self: "PerformanceModel|FlexModel", node_name: "str") -> "Node":
    raises(ModelException, not any(n.name == node_name for n in self.node_objects))
    ensures(result in self.node_objects and result.name == node_name)


@contract("Node.interfaces", props=["C12", "C18"])
def c(self: "Node", model: "PerformanceModel|FlexModel") -> "list[Interface]":
    returns([i for i in model.interface_objects if i.node_object.name == self.name])


@contract("Node.adjacent_nodes", props=["C18"])
def c(self: "Node", model: "PerformanceModel|FlexModel") -> "set[Node]":
    returns({i.remote_node_object for i in model.interface_objects if i.node_object.name == self.name})


@contract("_MasterModel._does_interface_exist", props=["C12"])
def c(self: "PerformanceModel|FlexModel", interface_name: "str", node_object_name: "str"):
    raises(ModelException, not any(i.name == interface_name and i.node_object.name == node_object_name for i in self.interface_objects))


@contract("_MasterModel.get_interface_object", props=["C12"])
def c(self: "PerformanceModel|FlexModel", interface_name: "str", node_name: "str") -> "Interface":
    requires(ends_in_model(self))
    raises(ModelException, not any(is_intf(self, i, interface_name, node_name) for i in self.interface_objects))
    ensures(is_intf(self, result, interface_name, node_name))


@contract("_MasterModel.get_node_interfaces", props=["C12"])
def c(self: "PerformanceModel|FlexModel", node_name: "str") -> "list[Interface]":
    returns([i for i in self.interface_objects if i.node_object.name == node_name])


@contract("_MasterModel.get_circuit_object_from_interface", props=["C12", "C17"])
def c(self: "PerformanceModel|FlexModel", interface_name: "str", node_name: "str") -> "Circuit":
    requires(ends_in_model(self) and intf_keys_unique(self))
    requires(all(any(same(i, k.interface_a) or same(i, k.interface_b) for k in self.circuit_objects) for i in self.interface_objects))
    raises(ModelException, not any(is_intf(self, i, interface_name, node_name) for i in self.interface_objects))
    ensures(result in self.circuit_objects)
    ensures(any(is_intf(self, i, interface_name, node_name) and (same(i, result.interface_a) or same(i, result.interface_b)) for i in self.interface_objects))


@contract("Interface.get_circuit_object", props=["C12", "C17"])
def c(self: "Interface", model: "PerformanceModel|FlexModel") -> "Circuit":
    requires(ends_in_model(model) and intf_keys_unique(model) and self in model.interface_objects)
    requires(all(any(same(i, k.interface_a) or same(i, k.interface_b) for k in model.circuit_objects) for i in model.interface_objects))
    ensures(result in model.circuit_objects and (same(self, result.interface_a) or same(self, result.interface_b)))


@contract("_MasterModel.get_demand_object", props=["C12"])
def c(self: "PerformanceModel|FlexModel", source_node_name: "str", dest_node_name: "str", demand_name: "str") -> "Demand":
    default("demand_name", "none")
    raises(ModelException, not any(d.source_node_object.name == source_node_name and d.dest_node_object.name == dest_node_name and d.name == demand_name for d in self.demand_objects))
    ensures(result in self.demand_objects and result.source_node_object.name == source_node_name)
    ensures(result.dest_node_object.name == dest_node_name and result.name == demand_name)


@contract("_MasterModel.get_rsvp_lsp", props=["C12"])
def c(self: "PerformanceModel|FlexModel", source_node_name: "str", dest_node_name: "str", lsp_name: "str") -> "RSVP_LSP":
    default("lsp_name", "none")
    raises(ModelException, not any(d.source_node_object.name == source_node_name and d.dest_node_object.name == dest_node_name and d.lsp_name == lsp_name for d in self.rsvp_lsp_objects))
    ensures(result in self.rsvp_lsp_objects and result.source_node_object.name == source_node_name)
    ensures(result.dest_node_object.name == dest_node_name and result.lsp_name == lsp_name)


@spec
def srlgs_unique(m):
    return forall("SRLG", "SRLG", lambda a, b: implies(a in m.srlg_objects and b in m.srlg_objects and a.name == b.name, same(a, b)))


@contract("_MasterModel.get_srlg_object", props=["C12", "C11"])
def c(self: "PerformanceModel|FlexModel", srlg_name: "str", raise_exception: "bool") -> "opt[SRLG]":
    default("raise_exception", True)
    requires(srlgs_unique(self))
    there = any(s.name == srlg_name for s in self.srlg_objects)
    raises(ModelException, raise_exception and not there)
    ensures(implies(not there, isnone(result)))
    ensures(implies(there, any(s.name == srlg_name and same(result, s) for s in self.srlg_objects)))


@contract("_MasterModel.get_failed_interface_objects", props=["C18", "C10"])
def c(self: "PerformanceModel|FlexModel") -> "list[Interface]":
    returns([i for i in self.interface_objects if i._failed])


@contract("_MasterModel.get_unfailed_interface_objects", props=["C18", "C10"])
def c(self: "PerformanceModel|FlexModel") -> "set[Interface]":
    returns({i for i in self.interface_objects if not i._failed})


@contract("_MasterModel.get_failed_node_objects", props=["C18", "C10"])
def c(self: "PerformanceModel|FlexModel") -> "list[Node]":
    requires(nodes_unique(self))
    returns([n for n in self.node_objects if n._failed])


@contract("_MasterModel.get_non_failed_node_objects", props=["C18", "C10"])
def c(self: "PerformanceModel|FlexModel") -> "list[Node]":
    requires(nodes_unique(self))
    returns([n for n in self.node_objects if not n._failed])


@contract("_MasterModel.get_unrouted_demand_objects", props=["C18"])
def c(self: "PerformanceModel|FlexModel") -> "list[Demand]":
    returns([d for d in self.demand_objects if d.path == "Unrouted"])


@contract("_MasterModel.get_demand_objects_source_node", props=["C18"])
def c(self: "PerformanceModel|FlexModel", source_node_name: "str") -> "list[Demand]":
    returns([d for d in self.demand_objects if d.source_node_object.name == source_node_name])


@contract("_MasterModel.get_demand_objects_dest_node", props=["C18"])
def c(self: "PerformanceModel|FlexModel", dest_node_name: "str") -> "list[Demand]":
    returns([d for d in self.demand_objects if d.dest_node_object.name == dest_node_name])


@contract("_MasterModel.get_orphan_node_objects", props=["C18"])
def c(self: "PerformanceModel|FlexModel") -> "list[Node]":
    returns([n for n in self.node_objects if not any(i.node_object.name == n.name for i in self.interface_objects)])


@contract("_MasterModel.is_node_an_orphan", props=["C18"])
def c(self: "PerformanceModel|FlexModel", node_object: "Node") -> "bool":
    returns(node_object in self.node_objects and not any(i.node_object.name == node_object.name for i in self.interface_objects))


@contract("_MasterModel.all_interface_circuit_ids", props=["C17", "C12"])
def c(self: "PerformanceModel|FlexModel") -> "set[any]":
    returns({i.circuit_id for i in self.interface_objects})


@contract("SRLG.node_objects", props=["C11"])
def c(self: "SRLG") -> "set[Node]":
    returns({n for n in self.model.node_objects if self in n._srlgs})


@contract("SRLG.interface_objects", props=["C11"])
def c(self: "SRLG") -> "set[Interface]":
    returns({i for i in self.model.interface_objects if self in i._srlgs})


@contract("Circuit.get_circuit_interfaces", props=["C17"])
def c(self: "Circuit", model: "any") -> "tuple[Interface,Interface]":
    returns((self.interface_a, self.interface_b))


@contract("Circuit.failed", props=["C18", "C10"])
def c(self: "Circuit", model: "any") -> "bool":
    returns(self.interface_a._failed or self.interface_b._failed)


@contract("Circuit.circuit_id", props=["C17"])
def c(self: "Circuit") -> "any":
    returns(self.interface_a.circuit_id)


@contract("Interface.lsps", props=["C18", "C04"])
def c(self: "Interface", model: "PerformanceModel|FlexModel") -> "list[RSVP_LSP]":
    requires(all(isobj(l.path) or contains("Unrouted", l.path) for l in model.rsvp_lsp_objects))
    ensures(distinct(result))
    ensures(elems(result) == {l for l in model.rsvp_lsp_objects if isobj(l.path) and self in l.path["interfaces"]})


@contract("Interface.demands", props=["C18"])
def c(self: "Interface", model: "PerformanceModel|FlexModel") -> "list[Demand]":
    requires(all(isobj(l.path) for d in model.demand_objects if isobj(d.path) for p in d.path for l in p if cls(l, "RSVP_LSP")))
    requires(all(isobj(d.path) or d.path == "Unrouted" for d in model.demand_objects))
    ensures(distinct(result))
    ensures(elems(result) == {d for d in model.demand_objects if isobj(d.path) and any(
        (cls(o, "RSVP_LSP") and self in o.path["interfaces"]) or (not cls(o, "RSVP_LSP") and same(o, self)) for p in d.path for o in p)})


@contract("RSVP_LSP.demands_on_lsp", props=["C18", "C06"])
def c(self: "RSVP_LSP", model: "PerformanceModel|FlexModel") -> "list[Demand]":
    requires(all(isobj(d.path) or d.path == "Unrouted" for d in model.demand_objects))
    ensures(distinct(result))
    ensures(elems(result) == {d for d in model.demand_objects if isobj(d.path) and any(same(o, self) for p in d.path for o in p)})
