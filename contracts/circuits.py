"""Graphs of the model and the pairing of interfaces into circuits (C13, C17, C15, C01, C06)."""


@spec
def usable(i, include_failed_circuits, needed_bw):
    """the edge filter of the network graphs"""
    return (include_failed_circuits or not i._failed) and (needed_bw == 0 or res_bw(i) >= needed_bw)


@contract("PerformanceModel._make_weighted_network_graph", props=["C01", "C04", "C06", "C15", "C17"])
def c(self: "PerformanceModel", include_failed_circuits: "bool", needed_bw: "real", rsvp_required: "bool"):
    default("include_failed_circuits", True)
    default("needed_bw", 0)
    default("rsvp_required", False)
    returns(digraph([(i.node_object.name, i.remote_node_object.name, {"cost": i._cost, "interface": i, "circuit_id": i.circuit_id})
                     for i in self.interface_objects if usable(i, include_failed_circuits, needed_bw) and (not rsvp_required or same(i.rsvp_enabled, True))],
                    [n.name for n in self.node_objects]))


@contract("FlexModel._make_weighted_network_graph_mdg", props=["C01", "C04", "C06", "C15", "C17"])
def c(self: "FlexModel", include_failed_circuits: "bool", needed_bw: "real", rsvp_required: "bool"):
    default("include_failed_circuits", True)
    default("needed_bw", 0)
    default("rsvp_required", False)
    returns(multidigraph([(i.node_object.name, i.remote_node_object.name, {"cost": i._cost, "interface": i, "circuit_id": i.circuit_id})
                     for i in self.interface_objects if usable(i, include_failed_circuits, needed_bw) and (not rsvp_required or same(i.rsvp_enabled, True))],
                    [n.name for n in self.node_objects]))


@spec
def opp(i, j):
    """j leads back from i's far node to i's node"""
    return j.node_object.name == i.remote_node_object.name and j.remote_node_object.name == i.node_object.name


@spec
def no_loops(m):
    """no interface connects a node to itself"""
    return all(i.node_object.name != i.remote_node_object.name for i in m.interface_objects)


@spec
def no_parallel(m):
    return forall("Interface", "Interface", lambda i, j: implies(
        i in m.interface_objects and j in m.interface_objects and i.node_object.name == j.node_object.name
        and i.remote_node_object.name == j.remote_node_object.name, same(i, j)))


@spec
def one_id(cs):
    """no two circuits have the same circuit id"""
    return forall("Circuit", "Circuit", lambda k, q: implies(k in cs and q in cs and k.interface_a.circuit_id == q.interface_a.circuit_id, same(k, q)))


@spec
def inside(i, cs):
    return any(same(i, k.interface_a) or same(i, k.interface_b) for k in cs)


@spec
def disjoint(cs):
    """no interface is in two circuits"""
    return forall("Circuit", "Circuit", lambda k, q: implies(
        k in cs and q in cs and (same(k.interface_a, q.interface_a) or same(k.interface_a, q.interface_b)
                                 or same(k.interface_b, q.interface_a) or same(k.interface_b, q.interface_b)), same(k, q)))


@spec
def joined(m, cs):
    """every circuit in cs joins the two ends of one link"""
    return all(k.interface_a in m.interface_objects and k.interface_b in m.interface_objects and opp(k.interface_a, k.interface_b)
               and k.interface_a.circuit_id == k.interface_b.circuit_id for k in cs)


@spec
def circuits_ok(m):
    """every interface is in exactly one circuit, whose ends lead to each other's nodes and share an id no other circuit has"""
    return (joined(m, m.circuit_objects) and one_id(m.circuit_objects) and disjoint(m.circuit_objects)
            and all(inside(i, m.circuit_objects) for i in m.interface_objects))


@contract("PerformanceModel.get_interface_object_from_nodes", props=["C12", "C17"])
def c(self: "PerformanceModel", local_node_name: "str", remote_node_name: "str") -> "opt[Interface]":
    there = any(i.node_object.name == local_node_name and i.remote_node_object.name == remote_node_name for i in self.interface_objects)
    ensures(implies(not there, isnone(result)))
    ensures(implies(there, any(i.node_object.name == local_node_name and i.remote_node_object.name == remote_node_name and same(result, i) for i in self.interface_objects)))


@contract("PerformanceModel._make_circuits", props=["C17", "C13"], types={"circuits": "set[Circuit]"}, allocates=True)
def c(self: "PerformanceModel", return_exception: "bool", include_failed_circuits: "bool"):
    default("return_exception", True)
    default("include_failed_circuits", True)
    requires(return_exception and include_failed_circuits and no_loops(self))
    np = no_parallel(self)
    raises(ModelException, any(not any(opp(i, j) for j in self.interface_objects) for i in self.interface_objects))
    modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    modifies("Interface.circuit_id", lambda r: r in self.interface_objects)
    modifies("_MasterModel.circuit_objects", lambda r: same(r, self))
    raise_modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    raise_modifies("Interface.circuit_id", lambda r: r in self.interface_objects)
    loop(2, circuit_id_number >= 1 and all(is_new(k) for k in circuits))
    loop(2, all(isint(k.interface_a.circuit_id) and k.interface_a.circuit_id < circuit_id_number for k in circuits))
    loop(2, joined(self, circuits))
    loop(2, one_id(circuits))
    loop(2, disjoint(circuits))
    loop(2, all(iff(i.in_ckt, inside(i, circuits)) for i in self.interface_objects))
    loop(2, implies(np, all(e[2]["interface"].in_ckt for e in _done)))
    ensures(joined(self, self.circuit_objects) and one_id(self.circuit_objects) and disjoint(self.circuit_objects))
    ensures(implies(np, all(inside(i, self.circuit_objects) for i in self.interface_objects)))
    ensures(all(is_new(k) for k in self.circuit_objects))


@spec
def same_link(i, j):
    """i and j lead from and to the same nodes and have the same circuit id"""
    return (i.node_object.name == j.node_object.name and i.remote_node_object.name == j.remote_node_object.name
            and i.circuit_id == j.circuit_id)


@spec
def ids_clear(m):
    """two interfaces with one circuit id are the two ends of one link"""
    return forall("Interface", "Interface", lambda i, j: implies(
        i in m.interface_objects and j in m.interface_objects and i.circuit_id == j.circuit_id, same(i, j) or opp(i, j)))


@contract("FlexModel.get_interface_object_from_nodes", props=["C12", "C17"])
def c(self: "FlexModel", local_node_name: "str", remote_node_name: "str", circuit_id: "any") -> "list[Interface]":
    default("circuit_id", None)
    requires(isnone(circuit_id) or forall("Interface", "Interface", lambda i, j: implies(
        i in self.interface_objects and j in self.interface_objects and same_link(i, j), same(i, j))))
    returns([i for i in self.interface_objects if i.node_object.name == local_node_name and i.remote_node_object.name == remote_node_name
             and (isnone(circuit_id) or i.circuit_id == circuit_id)])


@contract("FlexModel._make_circuits_multidigraph", props=["C17", "C13"], types={"circuits": "set[Circuit]"}, allocates=True,
          inline=["FlexModel.get_interface_object_from_nodes"])
def c(self: "FlexModel", return_exception: "bool", include_failed_circuits: "bool"):
    default("return_exception", True)
    default("include_failed_circuits", True)
    requires(return_exception and include_failed_circuits and no_loops(self))
    requires(all(not isnone(i.circuit_id) for i in self.interface_objects))
    twins = any(any(same_link(i, j) and not same(i, j) for j in self.interface_objects) for i in self.interface_objects)
    raises(ModelException, twins or any(not any(opp(i, j) and i.circuit_id == j.circuit_id for j in self.interface_objects) for i in self.interface_objects))
    modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    modifies("_MasterModel.circuit_objects", lambda r: same(r, self))
    raise_modifies("Interface.in_ckt", lambda r: r in self.interface_objects)
    loop(2, all(is_new(k) for k in circuits))
    loop(2, joined(self, circuits))
    loop(2, disjoint(circuits))
    loop(2, all(iff(i.in_ckt, inside(i, circuits)) for i in self.interface_objects))
    loop(2, all(e[2]["interface"].in_ckt for e in _done))
    loop(2, all(all(implies(same_link(e[2]["interface"], j), same(e[2]["interface"], j)) for j in self.interface_objects) for e in _done))
    loop(2, all(any(opp(e[2]["interface"], j) and e[2]["interface"].circuit_id == j.circuit_id for j in self.interface_objects) for e in _done))
    ensures(all(i.in_ckt for i in self.interface_objects))
    ensures(joined(self, self.circuit_objects) and disjoint(self.circuit_objects))
    ensures(all(inside(i, self.circuit_objects) for i in self.interface_objects))
    ensures(implies(ids_clear(self), one_id(self.circuit_objects)))
    ensures(all(is_new(k) for k in self.circuit_objects))
