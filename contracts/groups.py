"""LSPs and demands by source and destination (C02, C07)."""


@spec
def key_of(x):
    return fmt("{}-{}", x.source_node_object.name, x.dest_node_object.name)


@spec
def lsp_keys_clear(m):
    """no key "source-destination" stands for two pairs of a source and a destination of the LSPs"""
    return forall("RSVP_LSP", "RSVP_LSP", "RSVP_LSP", "RSVP_LSP", lambda a, b, c, d: implies(
        a in m.rsvp_lsp_objects and b in m.rsvp_lsp_objects and c in m.rsvp_lsp_objects and d in m.rsvp_lsp_objects
        and fmt("{}-{}", a.source_node_object.name, b.dest_node_object.name) == fmt("{}-{}", c.source_node_object.name, d.dest_node_object.name),
        a.source_node_object.name == c.source_node_object.name and b.dest_node_object.name == d.dest_node_object.name))


@spec
def demand_keys_clear(m):
    return forall("Demand", "Demand", "Demand", "Demand", lambda a, b, c, d: implies(
        a in m.demand_objects and b in m.demand_objects and c in m.demand_objects and d in m.demand_objects
        and fmt("{}-{}", a.source_node_object.name, b.dest_node_object.name) == fmt("{}-{}", c.source_node_object.name, d.dest_node_object.name),
        a.source_node_object.name == c.source_node_object.name and b.dest_node_object.name == d.dest_node_object.name))


@spec
def lsps_grouped(m, groups):
    """groups holds exactly the LSPs of the model by key"""
    return (forall("str", lambda k: iff(k in groups, any(key_of(l) == k for l in m.rsvp_lsp_objects)))
            and forall("str", lambda k: implies(k in groups, distinct(groups[k])))
            and forall("str", "RSVP_LSP", lambda k, l: implies(k in groups, iff(l in groups[k], l in m.rsvp_lsp_objects and key_of(l) == k))))


@contract("_MasterModel.parallel_lsp_groups", props=["C02", "C07"], types={"parallel_lsp_groups": "dict[str,list[RSVP_LSP]]"})
def c(self: "PerformanceModel|FlexModel") -> "dict[str,list[RSVP_LSP]]":
    requires(lsp_keys_clear(self) and (not self._parallel_lsp_groups or lsps_grouped(self, self._parallel_lsp_groups)))
    modifies("_MasterModel._parallel_lsp_groups", lambda r: same(r, self))
    loop(1, forall("str", lambda k: iff(k in parallel_lsp_groups, any(key_of(l) == k and l.source_node_object.name in _done for l in self.rsvp_lsp_objects))))
    loop(1, forall("str", lambda k: implies(k in parallel_lsp_groups, distinct(parallel_lsp_groups[k]))))
    loop(1, forall("str", "RSVP_LSP", lambda k, l: implies(k in parallel_lsp_groups, iff(l in parallel_lsp_groups[k], l in self.rsvp_lsp_objects and key_of(l) == k))))
    loop(2, forall("str", lambda k: iff(k in parallel_lsp_groups, any(key_of(l) == k and (l.source_node_object.name in _done1
            or (l.source_node_object.name == src_node_name and l.dest_node_object.name in _done)) for l in self.rsvp_lsp_objects))))
    loop(2, forall("str", lambda k: implies(k in parallel_lsp_groups, distinct(parallel_lsp_groups[k]))))
    loop(2, forall("str", "RSVP_LSP", lambda k, l: implies(k in parallel_lsp_groups, iff(l in parallel_lsp_groups[k], l in self.rsvp_lsp_objects and key_of(l) == k))))
    loop(3, forall("str", lambda k: implies(k != key, iff(k in parallel_lsp_groups, any(key_of(l) == k and (l.source_node_object.name in _done1
            or (l.source_node_object.name == src_node_name and l.dest_node_object.name in _done2)) for l in self.rsvp_lsp_objects)))))
    loop(3, forall("str", lambda k: implies(k in parallel_lsp_groups, distinct(parallel_lsp_groups[k]))))
    loop(3, forall("str", "RSVP_LSP", lambda k, l: implies(k != key and k in parallel_lsp_groups, iff(l in parallel_lsp_groups[k], l in self.rsvp_lsp_objects and key_of(l) == k))))
    loop(3, key in parallel_lsp_groups and forall("RSVP_LSP", lambda l: iff(l in parallel_lsp_groups[key],
            l in _done and l.source_node_object.name == src_node_name and l.dest_node_object.name == dest_node_name)))
    step(2, any(l.source_node_object.name == src_node_name for l in self.rsvp_lsp_objects))
    step(2, any(l.dest_node_object.name == dest_node_name for l in self.rsvp_lsp_objects))
    step(2, forall("RSVP_LSP", lambda l: implies(l in self.rsvp_lsp_objects and key_of(l) == key,
            l.source_node_object.name == src_node_name and l.dest_node_object.name == dest_node_name)))
    step(2, implies(key not in parallel_lsp_groups, not any(key_of(l) == key for l in self.rsvp_lsp_objects)))
    step(2, all(implies(l.source_node_object.name == src_node_name and l.dest_node_object.name == dest_node_name, key_of(l) == key) for l in self.rsvp_lsp_objects))
    step(2, implies(key in parallel_lsp_groups, len(parallel_lsp_groups[key]) >= 1))
    step(2, implies(key in parallel_lsp_groups, parallel_lsp_groups[key][0] in parallel_lsp_groups[key]))
    step(2, implies(key in parallel_lsp_groups, forall("RSVP_LSP", lambda l: implies(l in parallel_lsp_groups[key], l in self.rsvp_lsp_objects and l.source_node_object.name == src_node_name and l.dest_node_object.name == dest_node_name))))
    step(2, implies(key in parallel_lsp_groups, parallel_lsp_groups[key][0] in self.rsvp_lsp_objects and parallel_lsp_groups[key][0].source_node_object.name == src_node_name and parallel_lsp_groups[key][0].dest_node_object.name == dest_node_name))
    step(2, implies(key in parallel_lsp_groups, any(l.source_node_object.name == src_node_name and l.dest_node_object.name == dest_node_name for l in self.rsvp_lsp_objects)))
    step(2, forall("str", lambda k: implies(k != key, iff(k in parallel_lsp_groups, any(key_of(l) == k and (l.source_node_object.name in _done1
            or (l.source_node_object.name == src_node_name and l.dest_node_object.name in _done2)) for l in self.rsvp_lsp_objects)))))
    step(2, implies(key in parallel_lsp_groups, any(key_of(l) == key and l.source_node_object.name == src_node_name and l.dest_node_object.name == dest_node_name for l in self.rsvp_lsp_objects)))
    ensures(lsps_grouped(self, result))
    ensures(lsps_grouped(self, self._parallel_lsp_groups))


@spec
def demands_grouped(m, groups):
    """groups holds exactly the demands of the model by key"""
    return (forall("str", lambda k: iff(k in groups, any(key_of(l) == k for l in m.demand_objects)))
            and forall("str", lambda k: implies(k in groups, distinct(groups[k])))
            and forall("str", "Demand", lambda k, l: implies(k in groups, iff(l in groups[k], l in m.demand_objects and key_of(l) == k))))


@contract("_MasterModel.parallel_demand_groups", props=["C02", "C07"], types={"parallel_demand_groups": "dict[str,list[Demand]]"})
def c(self: "PerformanceModel|FlexModel") -> "dict[str,list[Demand]]":
    requires(demand_keys_clear(self))
    loop(1, forall("str", lambda k: iff(k in parallel_demand_groups, any(key_of(l) == k and l.source_node_object.name in _done for l in self.demand_objects))))
    loop(1, forall("str", lambda k: implies(k in parallel_demand_groups, distinct(parallel_demand_groups[k]))))
    loop(1, forall("str", "Demand", lambda k, l: implies(k in parallel_demand_groups, iff(l in parallel_demand_groups[k], l in self.demand_objects and key_of(l) == k))))
    loop(2, forall("str", lambda k: iff(k in parallel_demand_groups, any(key_of(l) == k and (l.source_node_object.name in _done1
            or (l.source_node_object.name == src_node_name and l.dest_node_object.name in _done)) for l in self.demand_objects))))
    loop(2, forall("str", lambda k: implies(k in parallel_demand_groups, distinct(parallel_demand_groups[k]))))
    loop(2, forall("str", "Demand", lambda k, l: implies(k in parallel_demand_groups, iff(l in parallel_demand_groups[k], l in self.demand_objects and key_of(l) == k))))
    loop(3, forall("str", lambda k: implies(k != key, iff(k in parallel_demand_groups, any(key_of(l) == k and (l.source_node_object.name in _done1
            or (l.source_node_object.name == src_node_name and l.dest_node_object.name in _done2)) for l in self.demand_objects)))))
    loop(3, forall("str", lambda k: implies(k in parallel_demand_groups, distinct(parallel_demand_groups[k]))))
    loop(3, forall("str", "Demand", lambda k, l: implies(k != key and k in parallel_demand_groups, iff(l in parallel_demand_groups[k], l in self.demand_objects and key_of(l) == k))))
    loop(3, key in parallel_demand_groups and forall("Demand", lambda l: iff(l in parallel_demand_groups[key],
            l in _done and l.source_node_object.name == src_node_name and l.dest_node_object.name == dest_node_name)))
    step(2, any(l.source_node_object.name == src_node_name for l in self.demand_objects))
    step(2, any(l.dest_node_object.name == dest_node_name for l in self.demand_objects))
    step(2, forall("Demand", lambda l: implies(l in self.demand_objects and key_of(l) == key,
            l.source_node_object.name == src_node_name and l.dest_node_object.name == dest_node_name)))
    step(2, implies(key not in parallel_demand_groups, not any(key_of(l) == key for l in self.demand_objects)))
    step(2, all(implies(l.source_node_object.name == src_node_name and l.dest_node_object.name == dest_node_name, key_of(l) == key) for l in self.demand_objects))
    step(2, implies(key in parallel_demand_groups, len(parallel_demand_groups[key]) >= 1))
    step(2, implies(key in parallel_demand_groups, parallel_demand_groups[key][0] in parallel_demand_groups[key]))
    step(2, implies(key in parallel_demand_groups, forall("Demand", lambda l: implies(l in parallel_demand_groups[key], l in self.demand_objects and l.source_node_object.name == src_node_name and l.dest_node_object.name == dest_node_name))))
    step(2, implies(key in parallel_demand_groups, parallel_demand_groups[key][0] in self.demand_objects and parallel_demand_groups[key][0].source_node_object.name == src_node_name and parallel_demand_groups[key][0].dest_node_object.name == dest_node_name))
    step(2, implies(key in parallel_demand_groups, any(l.source_node_object.name == src_node_name and l.dest_node_object.name == dest_node_name for l in self.demand_objects)))
    step(2, forall("str", lambda k: implies(k != key, iff(k in parallel_demand_groups, any(key_of(l) == k and (l.source_node_object.name in _done1
            or (l.source_node_object.name == src_node_name and l.dest_node_object.name in _done2)) for l in self.demand_objects)))))
    step(2, implies(key in parallel_demand_groups, any(key_of(l) == key and l.source_node_object.name == src_node_name and l.dest_node_object.name == dest_node_name for l in self.demand_objects)))
    ensures(demands_grouped(self, result))


@spec
def placed(m, l):
    """l is unrouted and reserves nothing, or rides usable interfaces of the model with its configured bandwidth, if it has one"""
    return ((l.path == "Unrouted" and l.reserved_bandwidth == "Unrouted")
            or (rides(m, l) and (isnone(l.configured_setup_bandwidth) or l.reserved_bandwidth == l.configured_setup_bandwidth)))


@opaque
def at_rest(m, l):
    return placed(m, l)


@spec
def signalable(m, l):
    return (l.source_node_object.name != l.dest_node_object.name and is_name(m, l.source_node_object.name)
            and (isnone(l.configured_setup_bandwidth) or (isnum(l.configured_setup_bandwidth) and l.configured_setup_bandwidth >= 0)))


@contract("_MasterModel._route_parallel_lsp_groups", props=["C05", "C06", "C07"], timeout=20000)
def c(self: "PerformanceModel", parallel_demand_groups: "dict[str,list[Demand]]", parallel_lsp_groups: "dict[str,list[RSVP_LSP]]"):
    requires(no_parallel(self) and costs_positive(self))
    requires(lsps_grouped(self, parallel_lsp_groups) and demands_grouped(self, parallel_demand_groups))
    requires(all(signalable(self, l) for l in self.rsvp_lsp_objects) and all(d.traffic >= 0 for d in self.demand_objects))
    modifies("RSVP_LSP.path", lambda r: r in self.rsvp_lsp_objects)
    modifies("RSVP_LSP.reserved_bandwidth", lambda r: r in self.rsvp_lsp_objects)
    modifies("RSVP_LSP._setup_bandwidth", lambda r: r in self.rsvp_lsp_objects)
    modifies("Interface._reserved_bandwidth", lambda r: r in self.interface_objects)
    after("PerformanceModel._determine_lsp_state_info", iff(_arg_traff_on_each_group_lsp == 0, _it[0] not in parallel_demand_groups or sumof([d.traffic for d in parallel_demand_groups[_it[0]]]) == 0))
    after("PerformanceModel._determine_lsp_state_info", implies(_it[0] in parallel_demand_groups, _arg_traff_on_each_group_lsp * len(_it[1]) == sumof([d.traffic for d in parallel_demand_groups[_it[0]]])))
    after("PerformanceModel._determine_lsp_state_info", all(l.path == "Unrouted" or not isnone(l.configured_setup_bandwidth) or l.reserved_bandwidth == _arg_traff_on_each_group_lsp for l in _arg_lsps))
    after("PerformanceModel._determine_lsp_state_info", all(l in self.rsvp_lsp_objects and signalable(self, l) for l in _arg_lsps))
    after("PerformanceModel._determine_lsp_state_info", all(l.path == "Unrouted" or (routed(l) and isrec(l.path) and isnum(l.reserved_bandwidth)) for l in _arg_lsps))
    after("PerformanceModel._determine_lsp_state_info", all(l.path == "Unrouted" or riding(self, l) for l in _arg_lsps))
    after("PerformanceModel._determine_lsp_state_info", all(l.path == "Unrouted" or rides(self, l) for l in _arg_lsps))
    after("PerformanceModel._determine_lsp_state_info", all(placed(self, l) for l in _arg_lsps))
    after("PerformanceModel._determine_lsp_state_info", all(at_rest(self, l) for l in _arg_lsps))
    before("_MasterModel._optimize_parallel_lsp_group_res_bw", len(_arg_routed_lsps_in_group) != 0 and len(_arg_routed_lsps_in_group) != len(_it[1]))
    before("_MasterModel._optimize_parallel_lsp_group_res_bw", all(l in _it[1] for l in _arg_routed_lsps_in_group))
    before("_MasterModel._optimize_parallel_lsp_group_res_bw", all(implies(isnone(l.configured_setup_bandwidth), (_arg_traffic_in_demand_group == 0 and l.reserved_bandwidth == 0) or (_arg_traffic_in_demand_group > 0 and l.reserved_bandwidth == share(_it[1], _arg_traffic_in_demand_group))) for l in _arg_routed_lsps_in_group))
    before("_MasterModel._optimize_parallel_lsp_group_res_bw", _arg_traffic_in_demand_group == 0 or share(_it[1], _arg_traffic_in_demand_group) != share(_arg_routed_lsps_in_group, _arg_traffic_in_demand_group))
    after("_MasterModel._optimize_parallel_lsp_group_res_bw", all(isnone(l.configured_setup_bandwidth) or l.reserved_bandwidth == l.configured_setup_bandwidth for l in _arg_routed_lsps_in_group))
    after("_MasterModel._optimize_parallel_lsp_group_res_bw", all(at_rest(self, l) for l in _arg_routed_lsps_in_group))
    after("_MasterModel._optimize_parallel_lsp_group_res_bw", all(l in _arg_routed_lsps_in_group or (l.path == "Unrouted" and l.reserved_bandwidth == "Unrouted") for l in _it[1]))
    after("_MasterModel._optimize_parallel_lsp_group_res_bw", all(l in _arg_routed_lsps_in_group or placed(self, l) for l in _it[1]))
    after("_MasterModel._optimize_parallel_lsp_group_res_bw", all(l in _arg_routed_lsps_in_group or at_rest(self, l) for l in _it[1]))
    after("_MasterModel._optimize_parallel_lsp_group_res_bw", all(at_rest(self, l) for l in _it[1]))
    step(1, all(implies(key_of(l) == _it[0], l in _it[1]) for l in self.rsvp_lsp_objects))
    step(1, all(l in _it[1] or (l.path == head(l.path) and l.reserved_bandwidth == head(l.reserved_bandwidth)) for l in self.rsvp_lsp_objects))
    step(1, all(at_rest(self, l) for l in _it[1]))
    step(1, all(implies(head(riding(self, l)), l in _it[1] or riding(self, l)) for l in self.rsvp_lsp_objects))
    step(1, all(implies(head(rides(self, l)), l in _it[1] or rides(self, l)) for l in self.rsvp_lsp_objects))
    step(1, all(implies(head(placed(self, l)), l in _it[1] or placed(self, l)) for l in self.rsvp_lsp_objects))
    step(1, all(implies(head(at_rest(self, l)), l in _it[1] or at_rest(self, l)) for l in self.rsvp_lsp_objects))
    step(1, all(implies(head(at_rest(self, l)) or key_of(l) == _it[0], at_rest(self, l)) for l in self.rsvp_lsp_objects))
    loop(1, all(implies(any(k == key_of(l) for k, ls in _done), at_rest(self, l)) for l in self.rsvp_lsp_objects))
    ensures(all(at_rest(self, l) for l in self.rsvp_lsp_objects))


@contract("_MasterModel._route_lsps", props=["C05", "C06", "C07"])
def c(self: "PerformanceModel") -> "PerformanceModel":
    requires(no_parallel(self) and costs_positive(self) and lsp_keys_clear(self) and demand_keys_clear(self))
    requires(not self._parallel_lsp_groups or lsps_grouped(self, self._parallel_lsp_groups))
    requires(all(signalable(self, l) for l in self.rsvp_lsp_objects) and all(d.traffic >= 0 for d in self.demand_objects))
    modifies("_MasterModel._parallel_lsp_groups", lambda r: same(r, self))
    modifies("RSVP_LSP.path", lambda r: r in self.rsvp_lsp_objects)
    modifies("RSVP_LSP.reserved_bandwidth", lambda r: r in self.rsvp_lsp_objects)
    modifies("RSVP_LSP._setup_bandwidth", lambda r: r in self.rsvp_lsp_objects)
    modifies("Interface._reserved_bandwidth", lambda r: r in self.interface_objects)
    ensures(same(result, self))
    ensures(all(at_rest(self, l) for l in self.rsvp_lsp_objects))
    ensures(lsps_grouped(self, self._parallel_lsp_groups))
