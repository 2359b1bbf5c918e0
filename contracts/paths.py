"""Paths through the model (C15, C01, C06, C20): lists of interfaces."""


@spec
def chain(m, P, s, t, include_failed_circuits, needed_bw):
    """P is an unbroken loop-free path of usable interfaces from node s to node t"""
    return (len(P) >= 1 and P[0].node_object.name == s and P[len(P) - 1].remote_node_object.name == t
            and all(i in m.interface_objects and usable(i, include_failed_circuits, needed_bw) for i in P)
            and forall("int", lambda j: implies(0 <= j and j + 1 < len(P), P[j].remote_node_object.name == P[j + 1].node_object.name))
            and forall("int", "int", lambda j, k: implies(0 <= j and j <= k and k < len(P), P[j].node_object.name != P[k].remote_node_object.name)))


@spec
def costs_positive(m):
    return all(i._cost >= 1 for i in m.interface_objects)


@spec
def cost_of(P):
    return sumof([i._cost for i in P])


@spec
def in_step(P, Q):
    """the same nodes in the same order; in a model without parallel links, the same interfaces"""
    return len(P) == len(Q) and forall("int", lambda j: implies(0 <= j and j < len(P), P[j].node_object.name == Q[j].node_object.name))


@spec
def passes(P, names):
    """the interfaces of P start at the named nodes in turn"""
    return len(names) == len(P) + 1 and forall("int", lambda j: implies(0 <= j and j < len(P), P[j].node_object.name == names[j]))


@spec
def hops_exist(m, path):
    return forall("int", lambda j: implies(0 <= j and j + 1 < len(path), any(i.node_object.name == path[j] and i.remote_node_object.name == path[j + 1] for i in m.interface_objects)))


@contract("PerformanceModel._convert_nx_path_to_model_path", props=["C15", "C20", "C02"], types={"model_path": "list[Interface]"})
def c(self: "PerformanceModel", nx_graph_path: "list[str]") -> "list[Interface]":
    requires(len(nx_graph_path) >= 1 and hops_exist(self, nx_graph_path))
    requires(forall("int", "int", lambda j, k: implies(0 <= j and j < k and k < len(nx_graph_path), nx_graph_path[j] != nx_graph_path[k])))
    loop(1, len(model_path) == ite(_n < len(nx_graph_path), _n, _n - 1))
    loop(1, forall("int", lambda j: implies(0 <= j and j < len(model_path), model_path[j] in self.interface_objects
         and model_path[j].node_object.name == nx_graph_path[j] and model_path[j].remote_node_object.name == nx_graph_path[j + 1])))
    ensures(len(result) == len(nx_graph_path) - 1)
    ensures(forall("int", lambda j: implies(0 <= j and j < len(result), result[j] in self.interface_objects
            and result[j].node_object.name == nx_graph_path[j] and result[j].remote_node_object.name == nx_graph_path[j + 1])))


@contract("PerformanceModel.get_shortest_path", props=["C15", "C20", "C02"], types={"converted_path": "rec{path:list[list[Interface]],cost:opt[int]}"}, timeout=20000)
def c(self: "PerformanceModel", source_node_name: "str", dest_node_name: "str", needed_bw: "real") -> "rec{path:list[list[Interface]],cost:opt[int]}":
    default("needed_bw", 0)
    requires(no_parallel(self) and costs_positive(self) and source_node_name != dest_node_name)
    loop(1, len(converted_path["path"]) == _n)
    loop(1, forall("int", lambda k: implies(0 <= k and k < _n, passes(converted_path["path"][k], _all[k]))))
    loop(1, all(chain(self, P, source_node_name, dest_node_name, False, needed_bw) for P in converted_path["path"]))
    loop(1, implies(_n >= 1, isint(converted_path["cost"]) and cost_of(converted_path["path"][_n - 1]) == converted_path["cost"]))
    loop(1, implies(_n >= 1, isint(converted_path["cost"]) and cost_of(converted_path["path"][0]) == converted_path["cost"]))
    loop(1, all(cost_of(P) == converted_path["cost"] for P in converted_path["path"]))
    ensures(iff(isnone(result["cost"]), len(result["path"]) == 0))
    ensures(all(chain(self, P, source_node_name, dest_node_name, False, needed_bw) and cost_of(P) == result["cost"] for P in result["path"]))
    ensures(forall("list[Interface]", lambda P: implies(chain(self, P, source_node_name, dest_node_name, False, needed_bw),
            not isnone(result["cost"]) and cost_of(P) >= result["cost"])))
    ensures(forall("list[Interface]", lambda P: implies(chain(self, P, source_node_name, dest_node_name, False, needed_bw) and cost_of(P) == result["cost"],
            any(in_step(P, Q) for Q in result["path"]))))
    ensures(distinct(result["path"]))
    ensures(isnone(result["cost"]) or isint(result["cost"]))
    ensures(implies(not isnone(result["cost"]), exists("list[Interface]", lambda P: chain(self, P, source_node_name, dest_node_name, False, needed_bw) and cost_of(P) == result["cost"])))


@contract("PerformanceModel._convert_graph_path_to_model_path", props=["C01", "C02", "C06"], types={"all_paths": "list[list[Interface]]", "model_path": "list[Interface]"})
def c(self: "PerformanceModel", nx_sp: "list[list[str]]") -> "list[list[Interface]]":
    requires(all(len(p) >= 1 and hops_exist(self, p) for p in nx_sp))
    requires(all(forall("int", "int", lambda j, k: implies(0 <= j and j < k and k < len(p), p[j] != p[k])) for p in nx_sp))
    loop(1, len(all_paths) == _n)
    loop(1, forall("int", lambda k: implies(0 <= k and k < _n, follows(self, all_paths[k], nx_sp[k]))))
    loop(2, len(model_path) == ite(_n < len(nx_graph_path), _n, _n - 1))
    loop(2, forall("int", lambda j: implies(0 <= j and j < len(model_path), model_path[j] in self.interface_objects
         and model_path[j].node_object.name == nx_graph_path[j] and model_path[j].remote_node_object.name == nx_graph_path[j + 1])))
    ensures(len(result) == len(nx_sp))
    ensures(forall("int", lambda k: implies(0 <= k and k < len(result), follows(self, result[k], nx_sp[k]))))


@spec
def follows(m, P, names):
    """P lists interfaces of the model between the named nodes in turn"""
    return len(P) == len(names) - 1 and forall("int", lambda j: implies(0 <= j and j < len(P), P[j] in m.interface_objects
        and P[j].node_object.name == names[j] and P[j].remote_node_object.name == names[j + 1]))


@contract("RSVP_LSP.topology_metric", props=["C20"])
def c(self: "RSVP_LSP", model: "PerformanceModel|FlexModel") -> "int|str":
    requires(routed(self) or contains("Unrouted", self.path))
    ensures(implies(not routed(self), result == "Unrouted"))
    ensures(implies(routed(self), result == cost_of(self.path["interfaces"])))


@contract("RSVP_LSP.effective_metric", props=["C20", "C02"])
def c(self: "RSVP_LSP", model: "PerformanceModel") -> "opt[int]|str":
    requires(not isbool(self.initial_manual_metric))
    requires(routed(self) or contains("Unrouted", self.path))
    requires(no_parallel(model) and costs_positive(model) and self.source_node_object.name != self.dest_node_object.name)
    pending = bool(self.initial_manual_metric)
    manual = pending or self._manual_metric != "not set"
    raises(ModelException, pending and not (isint(self.initial_manual_metric) and self.initial_manual_metric > 0))
    updates("RSVP_LSP._manual_metric", lambda r: same(r, self) and pending, self.initial_manual_metric)
    updates("RSVP_LSP.initial_manual_metric", lambda r: same(r, self) and manual, None)
    ensures(implies(old(manual), result == ite(old(pending), old(self.initial_manual_metric), old(self._manual_metric))))
    ensures(implies(not old(manual) and not routed(self), result == "Unrouted"))
    ensures(implies(not old(manual) and routed(self), isnone(result) or isint(result)))
    ensures(implies(not old(manual) and routed(self), iff(isnone(result), not exists("list[Interface]", lambda P: chain(model, P, self.source_node_object.name, self.dest_node_object.name, False, 0)))))
    ensures(implies(not old(manual) and routed(self) and not isnone(result), exists("list[Interface]", lambda P: chain(model, P, self.source_node_object.name, self.dest_node_object.name, False, 0) and cost_of(P) == result)))
    ensures(implies(not old(manual) and routed(self), forall("list[Interface]", lambda P: implies(chain(model, P, self.source_node_object.name, self.dest_node_object.name, False, 0), cost_of(P) >= result))))


@contract("_MasterModel._add_lsp_path_data", props=["C06"])
def c(self: "PerformanceModel|FlexModel", lsp: "RSVP_LSP", path: "list[Interface]"):
    requires(len(path) >= 1)
    modifies("RSVP_LSP.path", lambda r: same(r, lsp))
    ensures(routed(lsp) and isrec(lsp.path) and alike(lsp.path["interfaces"], path) and lsp.path["path_cost"] == cost_of(path))
    ensures(lsp.path["baseline_path_reservable_bw"] == min([res_bw(i) for i in path]))


@spec
def is_name(m, s):
    return any(n.name == s for n in m.node_objects)


@contract("PerformanceModel.get_all_paths_reservable_bw", props=["C15"], types={"converted_path": "rec{path:list[list[Interface]]}"}, timeout=20000)
def c(self: "PerformanceModel", source_node_name: "str", dest_node_name: "str", include_failed_circuits: "bool", cutoff: "int", needed_bw: "real") -> "rec{path:list[list[Interface]]}":
    default("include_failed_circuits", True)
    default("cutoff", 10)
    default("needed_bw", 0)
    requires(no_parallel(self) and source_node_name != dest_node_name and is_name(self, source_node_name) and is_name(self, dest_node_name))
    loop(1, len(converted_path["path"]) == _n)
    loop(1, forall("int", lambda k: implies(0 <= k and k < _n, passes(converted_path["path"][k], _all[k]))))
    loop(1, all(chain(self, P, source_node_name, dest_node_name, include_failed_circuits, needed_bw) and len(P) <= cutoff for P in converted_path["path"]))
    ensures(all(chain(self, P, source_node_name, dest_node_name, include_failed_circuits, needed_bw) and len(P) <= cutoff for P in result["path"]))
    ensures(forall("list[Interface]", lambda P: implies(chain(self, P, source_node_name, dest_node_name, include_failed_circuits, needed_bw) and len(P) <= cutoff,
            any(in_step(P, Q) for Q in result["path"]))))
    ensures(distinct(result["path"]))


@opaque
def room(l, i):
    """what the routed LSP l could reserve on i: its own reservation counts as free"""
    return res_bw(i) + ite(i in l.path["interfaces"], l.reserved_bandwidth, 0)


@opaque
def takes(l, i, needed_bw):
    return not i._failed and same(i.rsvp_enabled, True) and room(l, i) >= needed_bw


@contract("PerformanceModel._make_weighted_network_graph_routed_lsp", props=["C06", "C04"])
def c(self: "PerformanceModel", lsp: "RSVP_LSP", needed_bw: "real"):
    default("needed_bw", 0)
    requires(routed(lsp) and isnum(lsp.reserved_bandwidth))
    returns(digraph([(i.node_object.name, i.remote_node_object.name, {"cost": i._cost}) for i in self.interface_objects if takes(lsp, i, needed_bw)],
                    [n.name for n in self.node_objects]))


@spec
def walk(m, P, s, t):
    """P is an unbroken loop-free path of interfaces of the model from node s to node t"""
    return (len(P) >= 1 and P[0].node_object.name == s and P[len(P) - 1].remote_node_object.name == t
            and all(i in m.interface_objects for i in P)
            and forall("int", lambda j: implies(0 <= j and j + 1 < len(P), P[j].remote_node_object.name == P[j + 1].node_object.name))
            and forall("int", "int", lambda j, k: implies(0 <= j and j <= k and k < len(P), P[j].node_object.name != P[k].remote_node_object.name)))


@spec
def detour(m, l, P, s, t, needed_bw):
    """a path the routed LSP l could move to with needed_bw"""
    return walk(m, P, s, t) and all(takes(l, i, needed_bw) for i in P)


@contract("PerformanceModel.get_shortest_path_for_routed_lsp", props=["C06"], types={"converted_path": "rec{path:list[list[Interface]],cost:opt[int]}"}, timeout=20000)
def c(self: "PerformanceModel", source_node_name: "str", dest_node_name: "str", lsp: "RSVP_LSP", needed_bw: "real") -> "rec{path:list[list[Interface]],cost:opt[int]}":
    requires(routed(lsp) and isnum(lsp.reserved_bandwidth))
    requires(no_parallel(self) and costs_positive(self) and source_node_name != dest_node_name)
    loop(1, len(converted_path["path"]) == _n)
    loop(1, forall("int", lambda k: implies(0 <= k and k < _n, passes(converted_path["path"][k], _all[k]))))
    loop(1, all(detour(self, lsp, P, source_node_name, dest_node_name, needed_bw) for P in converted_path["path"]))
    loop(1, implies(_n >= 1, isint(converted_path["cost"]) and cost_of(converted_path["path"][_n - 1]) == converted_path["cost"]))
    loop(1, implies(_n >= 1, isint(converted_path["cost"]) and cost_of(converted_path["path"][0]) == converted_path["cost"]))
    loop(1, all(cost_of(P) == converted_path["cost"] for P in converted_path["path"]))
    ensures(iff(isnone(result["cost"]), len(result["path"]) == 0))
    ensures(all(detour(self, lsp, P, source_node_name, dest_node_name, needed_bw) and cost_of(P) == result["cost"] for P in result["path"]))
    ensures(forall("list[Interface]", lambda P: implies(detour(self, lsp, P, source_node_name, dest_node_name, needed_bw),
            not isnone(result["cost"]) and cost_of(P) >= result["cost"])))
    ensures(forall("list[Interface]", lambda P: implies(detour(self, lsp, P, source_node_name, dest_node_name, needed_bw) and cost_of(P) == result["cost"],
            any(in_step(P, Q) for Q in result["path"]))))
    ensures(distinct(result["path"]))


@spec
def least_room(l, P, b):
    """b is the least of what l could reserve on the interfaces of P"""
    return all(b <= room(l, i) for i in P) and any(b == room(l, i) for i in P)


@contract("RSVP_LSP._find_path_cost_and_headroom_routed_lsp", props=["C06"],
          types={"candidate_path_info": "list[rec{interfaces:list[Interface],path_cost:int,baseline_path_reservable_bw:real}]", "proto_reservable_bw": "dict[Interface,real]"})
def c(self: "RSVP_LSP", candidate_paths: "rec{path:list[list[Interface]],cost:opt[int]}") -> "list[rec{interfaces:list[Interface],path_cost:int,baseline_path_reservable_bw:real}]":
    requires(routed(self) and isnum(self.reserved_bandwidth))
    requires(all(len(P) >= 1 for P in candidate_paths["path"]))
    loop(1, len(candidate_path_info) == _n)
    loop(1, forall("int", lambda k: implies(0 <= k and k < _n, alike(candidate_path_info[k]["interfaces"], candidate_paths["path"][k])
            and candidate_path_info[k]["path_cost"] == cost_of(candidate_paths["path"][k])
            and least_room(self, candidate_paths["path"][k], candidate_path_info[k]["baseline_path_reservable_bw"]))))
    loop(1, all(p["path_cost"] == cost_of(p["interfaces"]) for p in candidate_path_info))
    loop(2, forall("int", lambda j: implies(0 <= j and j < _n, path[j] in proto_reservable_bw)))
    loop(2, all(proto_reservable_bw[i] == room(self, i) and exists("int", lambda j: 0 <= j and j < _n and same(path[j], i)) for i in proto_reservable_bw))
    ensures(len(result) == len(candidate_paths["path"]))
    ensures(forall("int", lambda k: implies(0 <= k and k < len(result), alike(result[k]["interfaces"], candidate_paths["path"][k])
            and result[k]["path_cost"] == cost_of(candidate_paths["path"][k]) and result[k]["path_cost"] == cost_of(result[k]["interfaces"])
            and least_room(self, candidate_paths["path"][k], result[k]["baseline_path_reservable_bw"]))))


@contract("RSVP_LSP.find_rsvp_path_w_bw", props=["C06"])
def c(self: "RSVP_LSP", requested_bandwidth: "real", model: "PerformanceModel") -> "RSVP_LSP":
    requires(routed(self) and isnum(self.reserved_bandwidth) and isnone(self.configured_setup_bandwidth) and requested_bandwidth >= 0)
    requires(no_parallel(model) and costs_positive(model) and self.source_node_object.name != self.dest_node_object.name)
    s = self.source_node_object.name
    t = self.dest_node_object.name
    modifies("RSVP_LSP.path", lambda r: same(r, self))
    modifies("RSVP_LSP.reserved_bandwidth", lambda r: same(r, self))
    modifies("RSVP_LSP._setup_bandwidth", lambda r: same(r, self))
    ensures(same(result, self) and routed(self) and isnum(self.reserved_bandwidth))
    ensures(implies(old(isrec(self.path)), isrec(self.path)))
    moved = exists("list[Interface]", lambda P: detour(model, self, P, s, t, requested_bandwidth))
    ensures(implies(not old(moved), unchanged("RSVP_LSP.path") and unchanged("RSVP_LSP.reserved_bandwidth") and unchanged("RSVP_LSP._setup_bandwidth")))
    ensures(implies(old(moved), self.reserved_bandwidth == requested_bandwidth and self.setup_bandwidth == requested_bandwidth))
    ensures(implies(old(moved), forall("list[Interface]", lambda P: implies(alike(P, self.path["interfaces"]), old(detour(model, self, P, s, t, requested_bandwidth))))))
    ensures(implies(old(moved), self.path["path_cost"] == cost_of(self.path["interfaces"])))
    ensures(implies(old(moved), forall("list[Interface]", lambda P: implies(old(detour(model, self, P, s, t, requested_bandwidth)), cost_of(P) >= self.path["path_cost"]))))
