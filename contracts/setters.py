"""Attribute guards (C16, C20) and failure guards (C09, C10, C11)."""


@contract("Node.failed.setter", props=["C16", "C10", "C11"])
def c(self: "Node", status: "any"):
    raises(ModelException, not isbool(status) or (status == False and any(s._failed for s in self._srlgs)))
    on_raise("Node._failed", lambda r: same(r, self) and isbool(status), True)
    updates("Node._failed", lambda r: same(r, self), status)


@contract("Node.lat.setter", props=["C16"])
def c(self: "Node", status: "any"):
    raises(ValueError, not (isnum(status) or isbool(status)))
    updates("Node._lat", lambda r: same(r, self), status)


@contract("Node.lon.setter", props=["C16"])
def c(self: "Node", status: "any"):
    raises(ValueError, not (isnum(status) or isbool(status)))
    updates("Node._lon", lambda r: same(r, self), status)


@contract("Node.igp_shortcuts_enabled.setter", props=["C16"])
def c(self: "Node", status: "any"):
    raises(ValueError, not (isbool(status) or status == "True" or status == "False"))
    updates("Node._igp_shortcuts_enabled", lambda r: same(r, self), ite(isbool(status), status, status == "True"))


@contract("Node.igp_shortcuts_enabled", props=["C16"])
def c(self: "Node") -> "bool":
    returns(self._igp_shortcuts_enabled)


@contract("Node.__init__", props=["C16"])
def c(self: "Node", name: "str", lat: "any", lon: "any"):
    default("lat", 0)
    default("lon", 0)
    raises(ValueError, not (isnum(lat) or isbool(lat)) or not (isnum(lon) or isbool(lon)))
    on_raise("*", lambda r: True, True)
    updates("Node.name", lambda r: same(r, self), name)
    updates("Node._lat", lambda r: same(r, self), lat)
    updates("Node._lon", lambda r: same(r, self), lon)
    updates("Node._failed", lambda r: same(r, self), False)
    updates("Node._igp_shortcuts_enabled", lambda r: same(r, self), False)
    updates("Node._srlgs", lambda r: same(r, self), set())


@contract("SRLG.failed.setter", props=["C16", "C11"])
def c(self: "SRLG", status: "any"):
    raises(ModelException, not isbool(status))
    updates("SRLG._failed", lambda r: same(r, self), status)


@contract("Interface.cost.setter", props=["C16"])
def c(self: "Interface", cost: "any"):
    requires(not isbool(cost))
    raises((ModelException, TypeError), not (isint(cost) and cost >= 1))
    updates("Interface._cost", lambda r: same(r, self), cost)


@contract("Interface.cost", props=["C16"])
def c(self: "Interface") -> "int":
    returns(self._cost)


@contract("Interface.capacity.setter", props=["C16"])
def c(self: "Interface", capacity: "any"):
    requires(not isbool(capacity))
    raises((ModelException, TypeError), not (isnum(capacity) and capacity > 0))
    updates("Interface._capacity", lambda r: same(r, self), capacity)


@contract("Interface.capacity", props=["C16"])
def c(self: "Interface") -> "real":
    returns(self._capacity)


@contract("Interface.reserved_bandwidth.setter", props=["C16", "C04"])
def c(self: "Interface", value: "any"):
    raises(ModelException, not (isnum(value) or isbool(value)))
    updates("Interface._reserved_bandwidth", lambda r: same(r, self), value)


@contract("Interface.reserved_bandwidth", props=["C16", "C05"])
def c(self: "Interface") -> "real":
    returns(round(self._reserved_bandwidth, 1))
    ensures(abs(result - self._reserved_bandwidth) <= 0.05)


@contract("Interface.failed", props=["C16", "C04"])
def c(self: "Interface") -> "bool":
    returns(self._failed)


@contract("Interface.failed.setter", props=["C16", "C09", "C10", "C11", "C04"])
def c(self: "Interface", status: "any"):
    insrlg = any(s._failed for s in self._srlgs)
    down = status == True or self.node_object._failed or self.remote_node_object._failed
    raises(ModelException, not isbool(status) or (status == False and insrlg))
    on_raise("Interface._failed", lambda r: same(r, self) and isbool(status), True)
    on_raise("Interface._reserved_bandwidth", lambda r: same(r, self) and isbool(status), 0)
    updates("Interface._failed", lambda r: same(r, self), down)
    updates("Interface._reserved_bandwidth", lambda r: same(r, self) and down, 0)


@opaque
def res_bw(i):
    """what an interface has left to reserve, to 0.1; -1 when it takes no LSPs"""
    return ite(same(i.rsvp_enabled, True), round(i._capacity * (i.percent_reservable_bandwidth / 100) - round(i._reserved_bandwidth, 1), 1), -1.0)


@contract("Interface.reservable_bandwidth", props=["C05", "C06", "C15"])
def c(self: "Interface") -> "real":
    returns(res_bw(self))
    ensures(implies(same(self.rsvp_enabled, True), abs(result - (self._capacity * self.percent_reservable_bandwidth / 100 - self._reserved_bandwidth)) <= 0.1))
    ensures(implies(not same(self.rsvp_enabled, True), result == -1))


@contract("Interface.utilization", props=["C18", "C04"])
def c(self: "Interface") -> "real|str":
    requires(self._capacity > 0)
    requires(implies(isstr(self.traffic), self.traffic == "Down"))
    ensures(implies(self.traffic == "Down", result == "Int is down"))
    ensures(implies(isnum(self.traffic), isnum(result) and abs(result - self.traffic / self._capacity * 100) <= 0.005))


@contract("RSVP_LSP.setup_bandwidth.setter", props=["C16", "C07"])
def c(self: "RSVP_LSP", proposed_setup_bw: "any"):
    requires(isnone(self.configured_setup_bandwidth) or isnum(self.configured_setup_bandwidth))
    requires(not isbool(proposed_setup_bw))
    fixed = not isnone(self.configured_setup_bandwidth) and not self.configured_setup_bandwidth == 0
    raises((ModelException, TypeError), not fixed and not (isnum(proposed_setup_bw) and proposed_setup_bw >= 0))
    updates("RSVP_LSP._setup_bandwidth", lambda r: same(r, self), float(ite(fixed, self.configured_setup_bandwidth, proposed_setup_bw)))


@contract("RSVP_LSP.manual_metric.setter", props=["C16", "C20"])
def c(self: "RSVP_LSP", value: "any"):
    requires(not isbool(value))
    raises((ModelException, TypeError), not ((isint(value) and value > 0) or value == -1))
    updates("RSVP_LSP.initial_manual_metric", lambda r: same(r, self), None)
    updates("RSVP_LSP._manual_metric", lambda r: same(r, self), ite(value == -1, "not set", value))


@contract("RSVP_LSP.manual_metric", props=["C16", "C20"])
def c(self: "RSVP_LSP") -> "int|str":
    requires(not isbool(self.initial_manual_metric))
    pending = bool(self.initial_manual_metric)
    raises(ModelException, pending and not (isint(self.initial_manual_metric) and self.initial_manual_metric > 0))
    updates("RSVP_LSP._manual_metric", lambda r: same(r, self) and pending, self.initial_manual_metric)
    updates("RSVP_LSP.initial_manual_metric", lambda r: same(r, self) and pending, None)
    ensures(result == ite(old(pending), old(self.initial_manual_metric), old(self._manual_metric)))


@contract("Demand.__init__", props=["C16", "C12"])
def c(self: "Demand", source_node_object: "Node", dest_node_object: "Node", traffic: "any", name: "str"):
    default("traffic", 0)
    default("name", "none")
    raises((ValueError, TypeError), not ((isnum(traffic) or isbool(traffic)) and traffic >= 0))
    on_raise("*", lambda r: True, True)
    updates("Demand.source_node_object", lambda r: same(r, self), source_node_object)
    updates("Demand.dest_node_object", lambda r: same(r, self), dest_node_object)
    updates("Demand.traffic", lambda r: same(r, self), traffic)
    updates("Demand.name", lambda r: same(r, self), name)
    updates("Demand.path", lambda r: same(r, self), "Unrouted")
    updates("Demand._path_detail", lambda r: same(r, self), "Unrouted_detail")


@contract("RSVP_LSP.__init__", props=["C12", "C20"])
def c(self: "RSVP_LSP", source_node_object: "Node", dest_node_object: "Node", lsp_name: "str", configured_setup_bandwidth: "any", configured_manual_metric: "any"):
    default("lsp_name", "none")
    default("configured_setup_bandwidth", None)
    default("configured_manual_metric", None)
    updates("RSVP_LSP.source_node_object", lambda r: same(r, self), source_node_object)
    updates("RSVP_LSP.dest_node_object", lambda r: same(r, self), dest_node_object)
    updates("RSVP_LSP.lsp_name", lambda r: same(r, self), lsp_name)
    updates("RSVP_LSP.path", lambda r: same(r, self), "Unrouted - initial")
    updates("RSVP_LSP.reserved_bandwidth", lambda r: same(r, self), "Unrouted - initial")
    updates("RSVP_LSP._setup_bandwidth", lambda r: same(r, self), "Unrouted - initial")
    updates("RSVP_LSP.configured_setup_bandwidth", lambda r: same(r, self), configured_setup_bandwidth)
    updates("RSVP_LSP.initial_manual_metric", lambda r: same(r, self), configured_manual_metric)
    updates("RSVP_LSP._manual_metric", lambda r: same(r, self), "not set")


@contract("Interface.__init__", props=["C12", "C16"])
def c(self: "Interface", name: "str", cost: "any", capacity: "any", node_object: "Node", remote_node_object: "Node", circuit_id: "any", rsvp_enabled: "any", percent_reservable_bandwidth: "real"):
    requires(not isbool(cost) and not isbool(capacity))
    default("circuit_id", None)
    default("rsvp_enabled", True)
    default("percent_reservable_bandwidth", 100)
    raises((ModelException, TypeError), not (isint(cost) and cost >= 1) or not (isnum(capacity) and capacity > 0))
    on_raise("*", lambda r: True, True)
    updates("Interface.name", lambda r: same(r, self), name)
    updates("Interface._cost", lambda r: same(r, self), cost)
    updates("Interface._capacity", lambda r: same(r, self), capacity)
    updates("Interface.node_object", lambda r: same(r, self), node_object)
    updates("Interface.remote_node_object", lambda r: same(r, self), remote_node_object)
    updates("Interface.circuit_id", lambda r: same(r, self), circuit_id)
    updates("Interface.traffic", lambda r: same(r, self), 0.0)
    updates("Interface._failed", lambda r: same(r, self), False)
    updates("Interface._reserved_bandwidth", lambda r: same(r, self), 0.0)
    updates("Interface._srlgs", lambda r: same(r, self), set())
    updates("Interface.rsvp_enabled", lambda r: same(r, self), rsvp_enabled)
    updates("Interface.percent_reservable_bandwidth", lambda r: same(r, self), percent_reservable_bandwidth)
