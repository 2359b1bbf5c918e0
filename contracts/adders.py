"""Adding objects to a model: duplicates are rejected, otherwise exactly the object is added (C12)."""


@contract("_MasterModel.add_node", props=["C12"], allocates=True)
def c(self: "PerformanceModel|FlexModel", node_object: "Node"):
    requires(settled(self) and not (cls(self, "PerformanceModel") and node_object._igp_shortcuts_enabled))
    raises(ModelException, any(n.name == node_object.name for n in self.node_objects))
    updates("_MasterModel.node_objects", lambda r: same(r, self), lambda r: r.node_objects | {node_object})
    modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    modifies("Interface.circuit_id", lambda r: r in self.interface_objects and cls(self, "PerformanceModel"))
    modifies("_MasterModel.circuit_objects", lambda r: same(r, self))


@spec
def is_demand(d, source_node_name, dest_node_name, name):
    return d.source_node_object.name == source_node_name and d.dest_node_object.name == dest_node_name and d.name == name


@contract("_MasterModel.add_demand", props=["C12"], allocates=True)
def c(self: "PerformanceModel|FlexModel", source_node_name: "str", dest_node_name: "str", traffic: "any", name: "str"):
    default("traffic", 0)
    default("name", "none")
    requires(settled(self) and not isbool(traffic))
    known = any(n.name == source_node_name for n in self.node_objects) and any(n.name == dest_node_name for n in self.node_objects)
    good = isnum(traffic) and traffic >= 0
    there = any(is_demand(d, source_node_name, dest_node_name, name) for d in self.demand_objects)
    raises(ModelException, not known or (good and there))
    raises((ValueError, TypeError), known and not good)
    modifies("_MasterModel.demand_objects", lambda r: same(r, self))
    ensures(all(implies(not is_new(d), d in old(self.demand_objects)) for d in self.demand_objects) and all(d in self.demand_objects for d in old(self.demand_objects)))
    ensures(exists("Demand", lambda x: x in self.demand_objects and is_new(x) and is_demand(x, source_node_name, dest_node_name, name) and x.traffic == traffic
                   and x.source_node_object in self.node_objects and x.dest_node_object in self.node_objects
                   and all(implies(is_new(d), same(d, x)) for d in self.demand_objects)))
    modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    modifies("Interface.circuit_id", lambda r: r in self.interface_objects and cls(self, "PerformanceModel"))
    modifies("_MasterModel.circuit_objects", lambda r: same(r, self))


@spec
def is_lsp(l, source_node_name, dest_node_name, name):
    return l.source_node_object.name == source_node_name and l.dest_node_object.name == dest_node_name and l.lsp_name == name


@contract("_MasterModel.add_rsvp_lsp", props=["C12"], allocates=True)
def c(self: "PerformanceModel|FlexModel", source_node_name: "str", dest_node_name: "str", name: "str"):
    requires(settled(self))
    known = any(n.name == source_node_name for n in self.node_objects) and any(n.name == dest_node_name for n in self.node_objects)
    there = any(is_lsp(l, source_node_name, dest_node_name, name) for l in self.rsvp_lsp_objects)
    raises(ModelException, not known or there)
    modifies("_MasterModel.rsvp_lsp_objects", lambda r: same(r, self))
    ensures(all(implies(not is_new(l), l in old(self.rsvp_lsp_objects)) for l in self.rsvp_lsp_objects) and all(l in self.rsvp_lsp_objects for l in old(self.rsvp_lsp_objects)))
    ensures(exists("RSVP_LSP", lambda x: x in self.rsvp_lsp_objects and is_new(x) and is_lsp(x, source_node_name, dest_node_name, name)
                   and x.source_node_object in self.node_objects and x.dest_node_object in self.node_objects
                   and all(implies(is_new(l), same(l, x)) for l in self.rsvp_lsp_objects)))
    modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    modifies("Interface.circuit_id", lambda r: r in self.interface_objects and cls(self, "PerformanceModel"))
    modifies("_MasterModel.circuit_objects", lambda r: same(r, self))


@contract("_MasterModel.change_interface_name", props=["C12"])
def c(self: "PerformanceModel|FlexModel", node_name: "str", current_interface_name: "str", new_interface_name: "str") -> "Interface":
    requires(nodes_unique(self) and ends_in_model(self) and intf_keys_unique(self))
    raises(ModelException, not any(is_intf(self, i, current_interface_name, node_name) for i in self.interface_objects))
    updates("Interface.name", lambda r: is_intf(self, r, current_interface_name, node_name), new_interface_name)
    ensures(result in self.interface_objects and result.name == new_interface_name and result.node_object.name == node_name)


@spec
def new_end(m, x, name, cost, capacity, here, there, failed):
    """x is the new interface with the given values"""
    return (x in m.interface_objects and is_new(x) and x.name == name and x._cost == cost and x._capacity == capacity and same(x.node_object, here)
            and same(x.remote_node_object, there) and iff(x._failed, failed) and x._reserved_bandwidth == 0)


@spec
def good_values(cost_a, cost_b, capacity):
    return isint(cost_a) and cost_a >= 1 and isint(cost_b) and cost_b >= 1 and isnum(capacity) and capacity > 0


@contract("PerformanceModel.add_circuit", props=["C12"], allocates=True)
def c(self: "PerformanceModel", node_a_object: "Node", node_b_object: "Node", node_a_interface_name: "str", node_b_interface_name: "str",
      cost_intf_a: "any", cost_intf_b: "any", capacity: "any", failed: "bool", circuit_id: "any"):
    default("cost_intf_a", 1)
    default("cost_intf_b", 1)
    default("capacity", 1000)
    default("failed", False)
    default("circuit_id", None)
    requires(settled(self) and not isbool(cost_intf_a) and not isbool(cost_intf_b) and not isbool(capacity))
    requires(node_a_object in self.node_objects and node_b_object in self.node_objects and not same(node_a_object, node_b_object))
    requires(not node_a_object._failed and not node_b_object._failed)
    requires(not any(same(i.node_object, node_a_object) and same(i.remote_node_object, node_b_object) for i in self.interface_objects))
    requires(not isnone(circuit_id))
    taken = any(is_intf(self, i, node_a_interface_name, node_a_object.name) or is_intf(self, i, node_b_interface_name, node_b_object.name) for i in self.interface_objects)
    raises((ModelException, TypeError), taken or not good_values(cost_intf_a, cost_intf_b, capacity))
    modifies("_MasterModel.interface_objects", lambda r: same(r, self))
    modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    modifies("Interface.circuit_id", lambda r: r in self.interface_objects)
    modifies("_MasterModel.circuit_objects", lambda r: same(r, self))
    ensures(all(implies(not is_new(i), i in old(self.interface_objects)) for i in self.interface_objects) and all(i in self.interface_objects for i in old(self.interface_objects)))
    ensures(exists("Interface", "Interface", lambda x, y: new_end(self, x, node_a_interface_name, cost_intf_a, capacity, node_a_object, node_b_object, failed)
                   and new_end(self, y, node_b_interface_name, cost_intf_b, capacity, node_b_object, node_a_object, failed)
                   and all(implies(is_new(i), same(i, x) or same(i, y)) for i in self.interface_objects)))
    ensures(mates(self))


@contract("FlexModel.add_circuit", props=["C12"], allocates=True)
def c(self: "FlexModel", node_a_object: "Node", node_b_object: "Node", node_a_interface_name: "str", node_b_interface_name: "str",
      cost_intf_a: "any", cost_intf_b: "any", capacity: "any", failed: "bool", circuit_id: "any"):
    default("cost_intf_a", 1)
    default("cost_intf_b", 1)
    default("capacity", 1000)
    default("failed", False)
    default("circuit_id", None)
    requires(settled(self) and not isbool(cost_intf_a) and not isbool(cost_intf_b) and not isbool(capacity))
    requires(node_a_object in self.node_objects and node_b_object in self.node_objects and not same(node_a_object, node_b_object))
    requires(not node_a_object._failed and not node_b_object._failed)
    taken = any(is_intf(self, i, node_a_interface_name, node_a_object.name) or is_intf(self, i, node_b_interface_name, node_b_object.name) for i in self.interface_objects)
    used = isnone(circuit_id) or any(i.circuit_id == circuit_id for i in self.interface_objects)
    raises((ModelException, TypeError), used or taken or not good_values(cost_intf_a, cost_intf_b, capacity))
    modifies("_MasterModel.interface_objects", lambda r: same(r, self))
    modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    modifies("_MasterModel.circuit_objects", lambda r: same(r, self))
    ensures(all(implies(not is_new(i), i in old(self.interface_objects)) for i in self.interface_objects) and all(i in self.interface_objects for i in old(self.interface_objects)))
    ensures(exists("Interface", "Interface", lambda x, y: new_end(self, x, node_a_interface_name, cost_intf_a, capacity, node_a_object, node_b_object, failed)
                   and new_end(self, y, node_b_interface_name, cost_intf_b, capacity, node_b_object, node_a_object, failed)
                   and x.circuit_id == circuit_id and y.circuit_id == circuit_id
                   and all(implies(is_new(i), same(i, x) or same(i, y)) for i in self.interface_objects)))
    ensures(mates(self))
