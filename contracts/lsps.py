"""Signalling of LSPs (C05, C06, C07)."""


@spec
def fits(i, bw):
    """an LSP of bandwidth bw may be signalled over i"""
    return not i._failed and same(i.rsvp_enabled, True) and res_bw(i) >= bw


@opaque
def open_to(m, bw):
    """outside the corner where an interface that takes LSPs has less than nothing left (rounding of reservations): an LSP that
    needs no bandwidth is then placed on the least-cost path whatever is left there, or on none"""
    return bw > 0 or all(res_bw(i) >= 0 for i in m.interface_objects if same(i.rsvp_enabled, True))


@spec
def feasible(m, l, P, bw):
    return walk(m, P, l.source_node_object.name, l.dest_node_object.name) and all(fits(i, bw) for i in P)


@opaque
def fitting(m, l, P, bw):
    """a path over which l may be signalled with bw"""
    return feasible(m, l, P, bw)


@opaque
def steps_of(P, Q):
    return in_step(P, Q)


@opaque
def passing(Q, bw):
    return all(res_bw(i) >= bw for i in Q)


@spec
def asks(l, each):
    """the bandwidth l asks for when its group's traffic is each per LSP"""
    return ite(isnone(l.configured_setup_bandwidth), each, l.configured_setup_bandwidth)


@spec
def signalled(m, l, each):
    """l is unrouted and reserves nothing, or has a path over interfaces that are up and take LSPs"""
    return ((l.path == "Unrouted" and l.reserved_bandwidth == "Unrouted")
            or (routed(l) and l.reserved_bandwidth == asks(l, each) and walk(m, l.path["interfaces"], l.source_node_object.name, l.dest_node_object.name)
                and all(not i._failed and same(i.rsvp_enabled, True) for i in l.path["interfaces"])
                and l.path["path_cost"] == cost_of(l.path["interfaces"])))


@contract("PerformanceModel._determine_lsp_state_info", props=["C06", "C05", "C07", "C04"],
          types={"candidate_path_info_w_reservable_bw": "list[list[Interface]]"}, timeout=20000)
def c(self: "PerformanceModel", lsps: "list[RSVP_LSP]", traff_on_each_group_lsp: "real"):
    requires(traff_on_each_group_lsp >= 0 and no_parallel(self) and costs_positive(self) and distinct(lsps))
    requires(all(l.source_node_object.name != l.dest_node_object.name and is_name(self, l.source_node_object.name)
                 and (isnone(l.configured_setup_bandwidth) or (isnum(l.configured_setup_bandwidth) and l.configured_setup_bandwidth >= 0)) for l in lsps))
    modifies("RSVP_LSP.path", lambda r: r in lsps)
    modifies("RSVP_LSP.reserved_bandwidth", lambda r: r in lsps)
    modifies("RSVP_LSP._setup_bandwidth", lambda r: r in lsps)
    modifies("Interface._reserved_bandwidth", lambda r: r in self.interface_objects)
    loop(1, all(signalled(self, l, traff_on_each_group_lsp) for l in _done))
    loop(1, all(l.setup_bandwidth == asks(l, traff_on_each_group_lsp) for l in _done))
    loop(1, all(l.path == "Unrouted" or isrec(l.path) for l in _done))
    after("PerformanceModel._convert_graph_path_to_model_path", all(all(usable(i, False, asks(_it, traff_on_each_group_lsp)) and same(i.rsvp_enabled, True) for i in P) for P in _res))
    after("PerformanceModel._convert_graph_path_to_model_path", all(walk(self, P, _it.source_node_object.name, _it.dest_node_object.name) for P in _res))
    after("PerformanceModel._convert_graph_path_to_model_path", all(distinct(P) for P in _res))
    after("PerformanceModel._convert_graph_path_to_model_path", len(_res) >= 1)
    after("PerformanceModel._convert_graph_path_to_model_path", all(cost_of(P) == cost_of(_res[0]) for P in _res))
    after("PerformanceModel._convert_graph_path_to_model_path", forall("list[Interface]", lambda P: implies(feasible(self, _it, P, asks(_it, traff_on_each_group_lsp)),
                                                                                              all(cost_of(P) >= cost_of(Q) for Q in _res))))
    after("PerformanceModel._convert_graph_path_to_model_path", forall("list[Interface]", lambda P: implies(feasible(self, _it, P, asks(_it, traff_on_each_group_lsp)) and cost_of(P) == cost_of(_res[0]),
                                                                                              any(in_step(P, Q) for Q in _res))))
    after("PerformanceModel._convert_graph_path_to_model_path", forall("list[Interface]", lambda P: implies(feasible(self, _it, P, asks(_it, traff_on_each_group_lsp)) and cost_of(P) == cost_of(_res[0]),
                                                                                              any(steps_of(P, Q) for Q in _res))))
    after("PerformanceModel._convert_graph_path_to_model_path", forall("list[Interface]", lambda P: implies(feasible(self, _it, P, asks(_it, traff_on_each_group_lsp)),
          all(implies(in_step(P, Q), forall("int", lambda j: implies(0 <= j and j < len(P), same(P[j], Q[j])))) for Q in _res))))
    after("PerformanceModel._convert_graph_path_to_model_path", forall("list[Interface]", lambda P: implies(feasible(self, _it, P, asks(_it, traff_on_each_group_lsp)),
          all(implies(in_step(P, Q), len(Q) == len(P) and all(res_bw(i) >= asks(_it, traff_on_each_group_lsp) for i in Q)) for Q in _res))))
    after("PerformanceModel._convert_graph_path_to_model_path", forall("list[Interface]", lambda P: implies(feasible(self, _it, P, asks(_it, traff_on_each_group_lsp)),
          all(implies(in_step(P, Q), len(Q) == len(P) and passing(Q, asks(_it, traff_on_each_group_lsp))) for Q in _res))))
    after("PerformanceModel._convert_graph_path_to_model_path", forall("list[Interface]", lambda P: implies(feasible(self, _it, P, asks(_it, traff_on_each_group_lsp)),
          all(implies(steps_of(P, Q), len(Q) == len(P) and passing(Q, asks(_it, traff_on_each_group_lsp))) for Q in _res))))
    after("PerformanceModel._convert_graph_path_to_model_path", forall("list[Interface]", lambda P: implies(fitting(self, _it, P, asks(_it, traff_on_each_group_lsp)),
          all(implies(steps_of(P, Q), len(Q) == len(P) and passing(Q, asks(_it, traff_on_each_group_lsp))) for Q in _res))))
    after("PerformanceModel._convert_graph_path_to_model_path", forall("list[Interface]", lambda P: implies(fitting(self, _it, P, asks(_it, traff_on_each_group_lsp)) and cost_of(P) == cost_of(_res[0]),
          any(steps_of(P, Q) for Q in _res))))
    after("PerformanceModel._convert_graph_path_to_model_path", forall("list[Interface]", lambda P: implies(fitting(self, _it, P, asks(_it, traff_on_each_group_lsp)) and cost_of(P) == cost_of(_res[0]),
          any(len(Q) == len(P) and passing(Q, asks(_it, traff_on_each_group_lsp)) for Q in _res))))
    after("PerformanceModel._convert_graph_path_to_model_path", forall("list[Interface]", lambda P: implies(fitting(self, _it, P, asks(_it, traff_on_each_group_lsp)),
                                                                                              all(cost_of(P) >= cost_of(Q) for Q in _res))))
    after("PerformanceModel._convert_graph_path_to_model_path", forall("list[Interface]", lambda P: implies(fitting(self, _it, P, asks(_it, traff_on_each_group_lsp)) and cost_of(P) == cost_of(_res[0]),
          any(len(Q) == len(P) and passing(Q, asks(_it, traff_on_each_group_lsp)) for Q in _res))))
    after("PerformanceModel._convert_graph_path_to_model_path", implies(open_to(self, asks(_it, traff_on_each_group_lsp)), all(passing(Q, asks(_it, traff_on_each_group_lsp)) for Q in _res)))
    step(1, _it.setup_bandwidth == asks(_it, traff_on_each_group_lsp))
    step(1, iff(_it.path == "Unrouted", _it.reserved_bandwidth == "Unrouted"))
    step(1, _it.path == "Unrouted" or isrec(_it.path))
    step(1, _it.path == "Unrouted" or _it.reserved_bandwidth == asks(_it, traff_on_each_group_lsp))
    step(1, _it.path == "Unrouted" or walk(self, _it.path["interfaces"], _it.source_node_object.name, _it.dest_node_object.name))
    step(1, _it.path == "Unrouted" or all(not i._failed and same(i.rsvp_enabled, True) for i in _it.path["interfaces"]))
    step(1, _it.path == "Unrouted" or _it.path["path_cost"] == cost_of(_it.path["interfaces"]))
    step(1, _it.path == "Unrouted" or (all(_it.path["baseline_path_reservable_bw"] <= head(res_bw(i)) for i in _it.path["interfaces"])
                                       and any(_it.path["baseline_path_reservable_bw"] == head(res_bw(i)) for i in _it.path["interfaces"])))
    step(1, _it.path == "Unrouted" or _it.path["baseline_path_reservable_bw"] >= asks(_it, traff_on_each_group_lsp))
    step(1, _it.path == "Unrouted"
         or forall("list[Interface]", lambda P: implies(head(fitting(self, _it, P, asks(_it, traff_on_each_group_lsp))), _it.path["path_cost"] <= cost_of(P))))
    step(1, _it.path == "Unrouted" or all(_it.path["path_cost"] == cost_of(Q) for Q in _res))
    step(1, _it.path == "Unrouted" or all(implies(head(passing(Q, asks(_it, traff_on_each_group_lsp))), len(_it.path["interfaces"]) <= len(Q)) for Q in _res))
    step(1, _it.path == "Unrouted"
         or forall("list[Interface]", lambda P: implies(head(fitting(self, _it, P, asks(_it, traff_on_each_group_lsp))) and _it.path["path_cost"] == cost_of(P),
                                                        len(_it.path["interfaces"]) <= len(P))))
    step(1, _it.path != "Unrouted" or not head(open_to(self, asks(_it, traff_on_each_group_lsp)))
         or not exists("list[Interface]", lambda P: head(fitting(self, _it, P, asks(_it, traff_on_each_group_lsp)))))
    step(1, all(i._reserved_bandwidth == head(i._reserved_bandwidth) + ite(_it.path != "Unrouted" and i in _it.path["interfaces"], asks(_it, traff_on_each_group_lsp), 0)
                for i in self.interface_objects))
    ensures(all(signalled(self, l, traff_on_each_group_lsp) for l in lsps))
    ensures(all(l.setup_bandwidth == asks(l, traff_on_each_group_lsp) for l in lsps))
    ensures(all(l.path == "Unrouted" or isrec(l.path) for l in lsps))


@spec
def riding(m, l):
    """l is routed over usable interfaces of the model"""
    return (routed(l) and isrec(l.path) and isnum(l.reserved_bandwidth) and walk(m, l.path["interfaces"], l.source_node_object.name, l.dest_node_object.name)
            and all(not i._failed and same(i.rsvp_enabled, True) for i in l.path["interfaces"]))


@opaque
def rides(m, l):
    return riding(m, l)


@spec
def share(lsps, traffic):
    return traffic / len(lsps)


@contract("_MasterModel._optimize_parallel_lsp_group_res_bw", props=["C05", "C07", "C06"], timeout=20000)
def c(self: "PerformanceModel", input_model: "PerformanceModel", routed_lsps_in_group: "list[RSVP_LSP]", traffic_in_demand_group: "real"):
    requires(same(input_model, self) and no_parallel(self) and costs_positive(self))
    requires(traffic_in_demand_group >= 0 and distinct(routed_lsps_in_group) and len(routed_lsps_in_group) >= 1)
    requires(all(rides(self, l) for l in routed_lsps_in_group))
    requires(all(l.source_node_object.name != l.dest_node_object.name for l in routed_lsps_in_group))
    requires(all(implies(isnone(l.configured_setup_bandwidth), l.reserved_bandwidth == 0 or l.reserved_bandwidth != share(routed_lsps_in_group, traffic_in_demand_group)) for l in routed_lsps_in_group))
    modifies("RSVP_LSP.path", lambda r: r in routed_lsps_in_group and isnone(r.configured_setup_bandwidth))
    modifies("RSVP_LSP.reserved_bandwidth", lambda r: r in routed_lsps_in_group and isnone(r.configured_setup_bandwidth))
    modifies("RSVP_LSP._setup_bandwidth", lambda r: r in routed_lsps_in_group and isnone(r.configured_setup_bandwidth))
    modifies("Interface._reserved_bandwidth", lambda r: r in self.interface_objects)
    loop(1, all(routed(l) for l in routed_lsps_in_group))
    loop(1, all(isrec(l.path) for l in routed_lsps_in_group))
    loop(1, all(l in _done or l.reserved_bandwidth == old(l.reserved_bandwidth) for l in routed_lsps_in_group))
    loop(1, all(isnum(l.reserved_bandwidth) for l in routed_lsps_in_group))
    loop(1, all(walk(self, l.path["interfaces"], l.source_node_object.name, l.dest_node_object.name) for l in routed_lsps_in_group))
    loop(1, all(all(not i._failed and same(i.rsvp_enabled, True) for i in l.path["interfaces"]) for l in routed_lsps_in_group))
    loop(1, all(l.reserved_bandwidth == old(l.reserved_bandwidth) or l.reserved_bandwidth == share(routed_lsps_in_group, traffic_in_demand_group) for l in routed_lsps_in_group))
    step(1, implies(not isnone(_it.configured_setup_bandwidth) or _it.reserved_bandwidth == head(_it.reserved_bandwidth), all(i._reserved_bandwidth == head(i._reserved_bandwidth) for i in self.interface_objects)))
    step(1, implies(_it.reserved_bandwidth != head(_it.reserved_bandwidth), all(i._reserved_bandwidth == head(i._reserved_bandwidth)
         - ite(i in head(_it.path["interfaces"]), head(_it.reserved_bandwidth), 0) + ite(i in _it.path["interfaces"], _it.reserved_bandwidth, 0) for i in self.interface_objects)))
    step(1, share(routed_lsps_in_group, traffic_in_demand_group) * len(routed_lsps_in_group) == traffic_in_demand_group)
    step(1, head(_it.reserved_bandwidth) == old(_it.reserved_bandwidth))
    step(1, implies(isnone(_it.configured_setup_bandwidth), head(_it.reserved_bandwidth) == 0 or head(_it.reserved_bandwidth) != share(routed_lsps_in_group, traffic_in_demand_group)))
    step(1, implies(_it.reserved_bandwidth == head(_it.reserved_bandwidth) and _it.reserved_bandwidth != 0, forall("list[Interface]", lambda P: implies(alike(P, _it.path["interfaces"]), head(alike(P, _it.path["interfaces"]))))))
    step(1, all(i._reserved_bandwidth == head(i._reserved_bandwidth)
         - ite(i in head(_it.path["interfaces"]), head(_it.reserved_bandwidth), 0) + ite(i in _it.path["interfaces"], _it.reserved_bandwidth, 0) for i in self.interface_objects))
    ensures(all(rides(self, l) for l in routed_lsps_in_group))
    ensures(all(l.reserved_bandwidth == old(l.reserved_bandwidth) or l.reserved_bandwidth == share(routed_lsps_in_group, traffic_in_demand_group) for l in routed_lsps_in_group))
