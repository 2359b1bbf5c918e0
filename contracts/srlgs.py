"""SRLG membership (C11) and adding SRLGs (C12)."""


@spec
def named(m, s, srlg_name):
    return s in m.srlg_objects and s.name == srlg_name


@spec
def own_srlgs(m):
    return srlgs_unique(m) and all(same(s.model, m) for s in m.srlg_objects)


@contract("SRLG.__init__", props=["C12", "C11"])
def c(self: "SRLG", name: "str", model: "PerformanceModel|FlexModel"):
    raises(ModelException, any(s.name == name for s in model.srlg_objects))
    updates("SRLG.name", lambda r: same(r, self), name)
    updates("SRLG.model", lambda r: same(r, self), model)
    updates("SRLG._failed", lambda r: same(r, self), False)
    updates("_MasterModel.srlg_objects", lambda r: same(r, model), lambda r: r.srlg_objects | {self})


@contract("_MasterModel.add_srlg", props=["C12", "C11"], allocates=True)
def c(self: "PerformanceModel|FlexModel", srlg_name: "str"):
    raises(ModelException, any(s.name == srlg_name for s in self.srlg_objects))
    modifies("_MasterModel.srlg_objects", lambda r: same(r, self))
    ensures(all(implies(not is_new(s), s in old(self.srlg_objects)) for s in self.srlg_objects) and all(s in self.srlg_objects for s in old(self.srlg_objects)))
    ensures(exists("SRLG", lambda x: x in self.srlg_objects and is_new(x) and x.name == srlg_name and not x._failed and same(x.model, self)
                   and all(implies(is_new(s), same(s, x)) for s in self.srlg_objects)))


@contract("Node.add_to_srlg", props=["C11"], allocates=True)
def c(self: "Node", srlg_name: "str", model: "PerformanceModel|FlexModel", create_if_not_present: "bool"):
    default("create_if_not_present", False)
    requires(self in model.node_objects and own_srlgs(model))
    there = any(s.name == srlg_name for s in model.srlg_objects)
    raises(ModelException, not there and not create_if_not_present)
    modifies("Node._srlgs", lambda r: same(r, self))
    modifies("_MasterModel.srlg_objects", lambda r: same(r, model) and not there)
    ensures(own_srlgs(model) and any(s.name == srlg_name for s in model.srlg_objects))
    ensures(all(implies(is_new(s), s.name == srlg_name and not s._failed) for s in model.srlg_objects) and all(s in model.srlg_objects for s in old(model.srlg_objects)))
    ensures(all(implies(not is_new(s), s in old(model.srlg_objects)) for s in model.srlg_objects))
    ensures(forall("SRLG", lambda s: iff(s in self._srlgs, old(s in self._srlgs) or named(model, s, srlg_name))))


@spec
def out_of(m, r, srlg_name):
    """membership of r without the named SRLG"""
    return {s for s in r._srlgs if not named(m, s, srlg_name)}


@contract("Node.remove_from_srlg", props=["C11"])
def c(self: "Node", srlg_name: "str", model: "PerformanceModel|FlexModel"):
    requires(self in model.node_objects and own_srlgs(model))
    there = any(s.name == srlg_name for s in model.srlg_objects)
    inside = any(named(model, s, srlg_name) and s in self._srlgs for s in model.srlg_objects)
    raises(KeyError, there and not inside)
    raises(ModelException, not there or (inside and any(s._failed for s in out_of(model, self, srlg_name))))
    updates("Node._srlgs", lambda r: same(r, self), lambda r: out_of(model, r, srlg_name))
    on_raise("Node._srlgs", lambda r: same(r, self) and inside, lambda r: out_of(model, r, srlg_name))
    modifies("Node._failed", lambda r: same(r, self))
    raise_modifies("Node._failed", lambda r: same(r, self))


@contract("Interface.add_to_srlg", props=["C11"], allocates=True)
def c(self: "Interface", srlg_name: "str", model: "PerformanceModel|FlexModel", create_if_not_present: "bool"):
    default("create_if_not_present", False)
    requires(self in model.interface_objects and own_srlgs(model) and mates(model))
    there = any(s.name == srlg_name for s in model.srlg_objects)
    raises(ModelException, not there and not create_if_not_present)
    modifies("Interface._srlgs", lambda r: same(r, self) or (r in model.interface_objects and link(self, r)))
    modifies("_MasterModel.srlg_objects", lambda r: same(r, model) and not there)
    ensures(own_srlgs(model) and any(s.name == srlg_name for s in model.srlg_objects))
    ensures(all(implies(is_new(s), s.name == srlg_name and not s._failed) for s in model.srlg_objects) and all(s in model.srlg_objects for s in old(model.srlg_objects)))
    ensures(all(implies(not is_new(s), s in old(model.srlg_objects)) for s in model.srlg_objects))
    ensures(forall("Interface", "SRLG", lambda r, s: implies(same(r, self) or (r in model.interface_objects and link(self, r)),
                   iff(s in r._srlgs, old(s in r._srlgs) or named(model, s, srlg_name)))))


@contract("Interface.remove_from_srlg", props=["C11"])
def c(self: "Interface", srlg_name: "str", model: "PerformanceModel|FlexModel"):
    requires(self in model.interface_objects and own_srlgs(model) and mates(model) and srlg_sym(model) and no_loops(model))
    there = any(s.name == srlg_name for s in model.srlg_objects)
    inside = any(named(model, s, srlg_name) and s in self._srlgs for s in model.srlg_objects)
    raises(KeyError, there and not inside)
    raises(ModelException, not there or (inside and any(s._failed for s in out_of(model, self, srlg_name))))
    updates("Interface._srlgs", lambda r: same(r, self) or (r in model.interface_objects and link(self, r)), lambda r: out_of(model, r, srlg_name))
    on_raise("Interface._srlgs", lambda r: inside and (same(r, self) or (r in model.interface_objects and link(self, r))), lambda r: out_of(model, r, srlg_name))
    modifies("Interface._failed", lambda r: same(r, self) or (r in model.interface_objects and link(self, r)))
    modifies("Interface._reserved_bandwidth", lambda r: same(r, self) or (r in model.interface_objects and link(self, r)))
    raise_modifies("Interface._failed", lambda r: same(r, self) or (r in model.interface_objects and link(self, r)))
    raise_modifies("Interface._reserved_bandwidth", lambda r: same(r, self) or (r in model.interface_objects and link(self, r)))
