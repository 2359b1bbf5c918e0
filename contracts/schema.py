FIELDS = {
    "Node": {"name": "str", "_failed": "bool", "_lat": "any", "_lon": "any", "_srlgs": "set[SRLG]",
             "_igp_shortcuts_enabled": "bool"},
    "SRLG": {"name": "str", "model": "PerformanceModel|FlexModel", "_failed": "bool"},
    "Interface": {"name": "str", "_cost": "int", "_capacity": "real", "node_object": "Node", "remote_node_object": "Node",
                  "circuit_id": "any", "traffic": "real|str", "_failed": "bool", "_reserved_bandwidth": "real", "in_ckt": "bool",
                  "_srlgs": "set[SRLG]", "rsvp_enabled": "any", "percent_reservable_bandwidth": "real"},
    "RSVP_LSP": {"source_node_object": "Node", "dest_node_object": "Node", "lsp_name": "str",
                 "path": "str|rec{interfaces:list[Interface],path_cost:int,baseline_path_reservable_bw:real}",
                 "reserved_bandwidth": "real|str", "_setup_bandwidth": "real|str", "configured_setup_bandwidth": "any",
                 "_manual_metric": "int|str", "initial_manual_metric": "any"},
    "Demand": {"source_node_object": "Node", "dest_node_object": "Node", "traffic": "real", "name": "str",
               "path": "str|list[list[Interface|RSVP_LSP]]", "_path_detail": "any"},
    "Circuit": {"interface_a": "Interface", "interface_b": "Interface"},
    "_MasterModel": {"interface_objects": "set[Interface]", "node_objects": "set[Node]", "demand_objects": "set[Demand]",
                     "circuit_objects": "set[Circuit]", "rsvp_lsp_objects": "set[RSVP_LSP]", "srlg_objects": "set[SRLG]",
                     "_parallel_lsp_groups": "dict[str,list[RSVP_LSP]]"},
}
