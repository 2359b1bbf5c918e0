import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=['pyNTM/'+f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
PF=['performance_model.py','flex_model.py']
DOM=(" Domain: models that pass validation, uniquely named nodes whose names do not make two 'source-dest' strings equal,"
     " demands and LSPs between two different nodes of the model, update_simulation called after each change.")
p('C01','IGP demands take exactly the least-cost paths',
 "After update_simulation, a demand with no routed LSP from its source to its destination, and with no IGP shortcut in use, has as its path list exactly the minimum-total-cost loop-free interface paths from its source to its destination over interfaces that are not failed (in FlexModel every combination of equal-cost parallel interfaces is a separate path), each listed once. It is 'Unrouted' exactly when no such path exists.",
 ['inputs','configurations','histories'],"Every topology, cost assignment, failure state and demand set, in PerformanceModel and FlexModel, rsvp-enabled or not."+DOM,
 "The tests compare a handful of fixed topologies with literal path lists; they reach no disconnected ECMP, asymmetric-cost or mixed rsvp_enabled topology in general, and cannot quantify over all graphs and failure states.",
 PF+['master_model.py'],[('_route_demands','FlexModel/PerformanceModel._route_demands'),('IGP graph','_make_weighted_network_graph(_mdg)'),('graph path to interface path','_convert_graph_path_to_model_path / _get_all_paths_mdg / _normalize_multidigraph_paths')],
 [('demand.path','list of paths or "Unrouted"','demand.py')],['Demand.path'])
p('C02','Demands ride exactly the best routed LSPs between their endpoints',
 "After update_simulation, a demand whose source and destination are joined by at least one routed LSP rides exactly the routed LSPs with that source and destination whose effective metric is lowest, one path per LSP, with the demand's traffic split equally over them. LSPs with other endpoints, unrouted LSPs and LSPs with a higher metric are never used end to end.",
 ['inputs','configurations'],"Every set of LSPs and demands, with any mix of manual metrics, configured bandwidths and routed/unrouted LSPs."+DOM,
 "Tests use a few fixed LSP sets; the choice must hold for every mix of metrics, groups and failures.",
 PF+['master_model.py','rsvp.py'],[('LSP selection','_route_demands'),('grouping','parallel_lsp_groups / parallel_demand_groups'),('metric','RSVP_LSP.effective_metric'),('interface load','_update_interface_utilization')],
 [('demand.path','[[lsp], ...]','demand.py')],['Demand.path','Demand.path_detail','RSVP_LSP.demands_on_lsp'])
p('C03','Traffic is conserved and split evenly at every ECMP branch',
 "After update_simulation, the path_traffic values of a routed demand add up to the demand's traffic, each path's share being the demand divided by the number of alternatives at every branch along the path. The traffic of each non-failed interface is the sum, over all routed demands, of the shares whose path crosses it directly or inside an LSP (to the rounding of 0.1 per demand that the models apply), and unrouted demands load nothing.",
 ['inputs','configurations'],"Every topology (including shared sub-paths and parallel links), every demand set and every routing outcome, in both model classes."+DOM,
 "Tests check literal loads on a few topologies; conservation is a statement about all demand sets and all ECMP DAGs.",
 PF,[('ECMP split','_demand_traffic_per_int / _demand_traffic_per_item'),('LSP split','_lsp_routed_demand_path_detail / _update_int_traffic_for_end_to_end_lsps'),('accumulation','_update_interface_utilization')],
 [('interface.traffic','load on the interface','interface.py'),('demand.path_detail','per-path share','demand.py')],['Interface.traffic','Demand.path_detail'])
p('C04','Failed interfaces carry and reserve nothing',
 "After update_simulation, no demand path and no LSP path contains a failed interface, an LSP that was routed over an interface that has since failed is re-routed or reported unrouted, and every failed interface reports traffic 'Down', utilization 'Int is down' and reserved bandwidth 0. Every interface that is not failed reports numeric traffic of at least 0.",
 ['fault_sequences','inputs'],"Every sequence of interface, node and SRLG failures and restorations followed by update_simulation, on every topology."+DOM,
 "Tests fail one or two elements of fixed topologies.",
 PF+['master_model.py','interface.py'],[('graph filter','_make_weighted_network_graph(_mdg), _make_weighted_network_graph_routed_lsp'),('traffic init','_update_interface_utilization'),('reset','update_simulation')],
 [('interface.failed','failure state','interface.py')],['Demand.path','RSVP_LSP.path','Interface.traffic','Interface.utilization'])
p('C05','RSVP reservations are exact and never exceed what is reservable',
 "After update_simulation, the reserved bandwidth of every interface is the sum of the reserved bandwidth of the routed LSPs that cross it, and does not exceed its capacity times its reservable percentage (both to the 0.1 precision to which bandwidth is reported). Every routed LSP crosses only rsvp-enabled interfaces, and an unrouted LSP reserves nothing anywhere.",
 ['inputs','configurations','histories'],"Every topology, reservable percentage, LSP set (auto and configured bandwidth), demand set, and every order in which groups and LSPs are signalled and re-signalled."+DOM,
 "Admission must hold for every order of signalling and every fractional share; tests fix a few LSP sets with integral bandwidths.",
 PF+['master_model.py','rsvp.py','interface.py'],[('admission','_determine_lsp_state_info'),('re-signal','_optimize_parallel_lsp_group_res_bw, find_rsvp_path_w_bw'),('limit','Interface.reservable_bandwidth')],
 [('interface.reserved_bandwidth','ledger','interface.py'),('lsp.reserved_bandwidth','reservation','rsvp.py')],['Interface.reserved_bandwidth','RSVP_LSP.path','RSVP_LSP.reserved_bandwidth'])
p('C06','LSPs take a least-cost feasible path, or are unrouted only if none exists',
 "When an LSP is signalled, it is routed on a connected loop-free interface path from its source to its destination made only of non-failed rsvp-enabled interfaces that each had at least its setup bandwidth reservable at that moment; that path has the lowest total cost among all such paths and, when the LSP is first signalled, the fewest hops among those of lowest cost. The LSP is unrouted exactly when no such path exists, and the path record's cost and baseline reservable bandwidth are the sum of the interface costs and the smallest reservable bandwidth on the path at signalling.",
 ['inputs','configurations'],"Every residual-capacity state, topology and LSP."+DOM,
 "Tests look at fixed LSP paths; optimality and exactness of 'Unrouted' quantify over all alternative paths.",
 PF+['master_model.py','rsvp.py'],[('constraint graph','_make_weighted_network_graph(_mdg)(rsvp_required, needed_bw)'),('selection','_determine_lsp_state_info'),('record','_add_lsp_path_data'),('re-signal','get_shortest_path_for_routed_lsp, _find_path_cost_and_headroom_routed_lsp')],
 [('lsp.path','path record or "Unrouted"','rsvp.py')],['RSVP_LSP.path'])
p('C07','LSP bandwidth is the configured value or a fair share of its demands',
 "After update_simulation, a routed LSP with configured setup bandwidth has that value as setup and reserved bandwidth. A routed LSP without one has reserved bandwidth equal either to the traffic of all demands with its source and destination divided by the number of LSPs with that source and destination, or, only when some of those LSPs are unrouted, to that traffic divided by the number of routed ones; an unrouted LSP's reserved bandwidth reads 'Unrouted'.",
 ['inputs','configurations'],"Every grouping of LSPs and demands, including groups without demands, zero-traffic demands and mixed configured/auto groups."+DOM,
 "Tests use single groups with convenient numbers.",
 PF+['master_model.py','rsvp.py'],[('share','_route_parallel_lsp_groups'),('assignment','_determine_lsp_state_info'),('optimization','_optimize_parallel_lsp_group_res_bw'),('groups','parallel_lsp_groups, parallel_demand_groups')],
 [('lsp.setup_bandwidth','requested bandwidth','rsvp.py')],['RSVP_LSP.reserved_bandwidth','RSVP_LSP.setup_bandwidth'])
p('C08','A simulation update depends only on the current model',
 "update_simulation carries nothing over from earlier simulations: whatever paths, reservations, traffic and groups an earlier update left, afterwards every demand, LSP and interface has results that are valid for the current topology, failure state, demands and LSPs alone, and the same as for a freshly built model with the same content (up to the choice among equally good LSP paths). It changes no input: topology, costs, capacities, failure states, demands and LSP configuration are as before.",
 ['histories','fault_sequences'],"Every history of changes (adding and removing demands and LSPs, failing, restoring, changing costs and capacities) with updates in between."+DOM,
 "Tests run one or two updates; stale state shows only after particular histories.",
 PF+['master_model.py'],[('reset','update_simulation'),('group cache reset','update_simulation / parallel_lsp_groups'),('ledger reset','_route_lsps')],
 [('_parallel_lsp_groups','cache of LSP groups','master_model.py')],['all simulation results'])
p('C09','Failing or restoring an interface affects exactly its circuit',
 "fail_interface marks the named interface and the interface at the other end of its circuit as failed, and changes the failure state of nothing else. unfail_interface, for a failed interface, restores both ends if both end nodes are up and no failed SRLG contains them, never leaves one end up and the other down, and otherwise leaves every failure state as it was; with raise_exception it then reports an error.",
 ['inputs','fault_sequences'],"Every model, interface and prior failure state; both model classes.",
 "Tests exercise one interface of one topology; the frame (nothing else changes) and all combinations of node and SRLG failures are not sampled.",
 ['master_model.py','interface.py','node.py'],[('fail','_MasterModel.fail_interface'),('unfail','_MasterModel.unfail_interface'),('guards','Interface.failed setter'),('other end','Interface.get_remote_interface')],
 [('interface.failed','failure state','interface.py')],['Interface.failed'])
p('C10','Failing or restoring a node affects exactly the node and its circuits',
 "fail_node marks the node, all its interfaces and their other ends as failed and changes no other failure state. unfail_node restores the node and exactly those of its circuits whose other node is up and that are in no failed SRLG; circuits to a failed node stay down, and a node in a failed SRLG cannot be restored.",
 ['inputs','fault_sequences'],"Every model, node and prior failure state of nodes, interfaces and SRLGs; both model classes; update_simulation between a failure and a restoration.",
 "Tests fail single nodes of fixed topologies; combinations of node, neighbour and SRLG failures are not sampled.",
 ['master_model.py','node.py','interface.py'],[('fail','_MasterModel.fail_node'),('unfail','_MasterModel.unfail_node'),('guards','Node.failed setter, Interface.failed setter')],
 [('node.failed','failure state','node.py')],['Node.failed','Interface.failed'])
p('C11','An SRLG fails and restores exactly its members',
 "fail_srlg fails the SRLG, every member node with its circuits, and every member interface with its other end, and nothing else; unfail_srlg clears the SRLG and restores its members except those that are in another failed SRLG or attached to a failed node. Adding an interface to an SRLG adds both ends of its circuit, removing it removes both ends, and membership seen from the SRLG and from the member always agree; while an SRLG is failed none of its members can be restored.",
 ['inputs','fault_sequences'],"Every assignment of nodes and interfaces to (overlapping) SRLGs and every order of SRLG failures and restorations.",
 "Tests use one or two SRLGs; overlapping SRLGs and mixed node/interface membership in all orders are not sampled.",
 ['master_model.py','node.py','interface.py','srlg.py'],[('fail/unfail','_MasterModel.fail_srlg / unfail_srlg'),('membership','add_to_srlg, remove_from_srlg, SRLG.node_objects, SRLG.interface_objects'),('guards','failed setters')],
 [('srlgs','SRLGs an element is in','node.py, interface.py')],['SRLG.failed','Node.failed','Interface.failed','SRLG.node_objects','SRLG.interface_objects'])
p('C12','Objects are found by their key and duplicates are rejected',
 "Every lookup by name (node, interface, demand, LSP, SRLG, circuit of an interface) returns the object of the model with exactly those names and reports an error if there is none; the lookup by node pair returns exactly the interfaces from the first node to the second, or none. Adding a node, interface, circuit, demand, LSP or SRLG whose key already exists is rejected with an error and leaves the model's objects as they were; otherwise exactly that object is added, with the given values, and can be found.",
 ['inputs','histories'],"Every model and every name, present or absent, including names that share parts; every sequence of additions.",
 "Tests look up a few names; exactness for all names, and that a rejected addition changes nothing, are not sampled.",
 ['master_model.py']+PF+['srlg.py','node.py'],[('lookups','get_node_object, get_interface_object, get_demand_object, get_rsvp_lsp, get_srlg_object, get_interface_object_from_nodes, get_circuit_object_from_interface'),('adders','add_node, add_demand, add_rsvp_lsp, add_circuit, add_srlg, add_network_interfaces_from_list')],
 [],['return values','interface_objects','node_objects','demand_objects','rsvp_lsp_objects','srlg_objects'])
p('C13','Validation accepts valid models and rejects each invalid one',
 "validate_model raises an error when an interface has no counterpart in the opposite direction, when the two ends of a circuit differ in capacity, when two interfaces of a node share a name, when two nodes share a name, when an interface's reserved bandwidth exceeds its capacity or differs from the sum of its LSPs' reservations by more than rounding, and, in PerformanceModel, when two nodes have parallel links or a node has IGP shortcuts enabled. It returns the model when none of these is the case, and changes no topology, demand or LSP.",
 ['inputs','configurations'],"Every model, valid or with any combination of these faults.",
 "Tests trigger some errors one at a time; that validation has no false positives and misses no combination is not sampled.",
 PF+['master_model.py'],[('validate','validate_model'),('circuits','_make_circuits(_multidigraph)'),('reservations','_make_int_info_dict, _reserved_bw_error_checks'),('capacity','_validate_circuit_interface_capacity'),('names','_unique_interface_per_node, _multiple_links_between_nodes')],
 [],['validate_model outcome'])
p('C14','A model file loads into exactly the model it describes',
 "load_model_file builds one interface per INTERFACES_TABLE row with the row's node, remote node, name, cost, capacity, circuit id, rsvp flag and reservable percentage (with the documented defaults), the nodes those rows and NODES_TABLE name, and one demand and LSP per row of their tables with the row's endpoints, traffic, name, configured bandwidth and metric. Rows that repeat an existing key are ignored, and a demand or LSP row naming an unknown node, or in FlexModel a circuit id that does not appear exactly twice, is an error.",
 ['inputs'],"Every well-formed model file in the documented format, for both classes, with and without the optional columns and tables.",
 "Tests load a few fixed files; every combination of optional columns, empty tables and repeated rows is not sampled.",
 PF+['master_model.py','utilities.py'],[('interfaces','_extract_interface_data_and_implied_nodes'),('nodes','_add_node_from_data'),('demands','_add_demand_from_data'),('LSPs','_add_lsp_from_data'),('sections','find_end_index')],
 [],['load_model_file result'])
p('C15','Path queries return exactly the qualifying paths',
 "get_shortest_path returns every least-cost loop-free interface path between two nodes over non-failed interfaces with at least the requested reservable bandwidth, each once, with that cost, or no path and cost None. get_all_paths_reservable_bw returns exactly the loop-free interface paths of at most the cutoff number of hops whose every interface has at least the requested reservable bandwidth and, unless failed circuits are included, is not failed; neither query changes the model.",
 ['inputs','configurations'],"Every topology, failure and reservation state, pair of nodes, bandwidth and cutoff; both classes, including parallel links.",
 "Tests compare a few literal results.",
 PF,[('queries','get_shortest_path, get_all_paths_reservable_bw'),('graph','_make_weighted_network_graph(_mdg)'),('conversion','_convert_nx_path_to_model_path, _get_all_paths_mdg, _normalize_multidigraph_paths')],
 [],['return values'])
p('C16','Invalid attribute values are rejected and never stored',
 "Setting an interface cost below 1 or not an integer, a capacity not above 0, a non-boolean failure state, a non-numeric reserved bandwidth, node coordinates that are not numbers, a non-boolean IGP-shortcut flag, a negative LSP setup bandwidth, an LSP metric that is neither a positive integer nor -1, or building a demand with negative or non-numeric traffic is an error and leaves the stored value as it was. Every valid value is stored and read back unchanged (bandwidths to 0.1).",
 ['inputs'],"Every value of every Python type offered to each attribute, in every prior state.",
 "Tests try two or three values per attribute.",
 ['interface.py','node.py','rsvp.py','srlg.py','demand.py'],[('setters','property setters of Interface, Node, RSVP_LSP, SRLG; Demand/Node constructors')],
 [],['attribute reads','raised errors'])
p('C17','Every circuit joins exactly the two ends of one link',
 "After validate_model or update_simulation, every interface belongs to exactly one circuit, whose two interfaces point at each other's nodes and share one circuit id that no other interface has; circuits are symmetric for failed and for non-rsvp interfaces alike. The other end of an interface's circuit is the interface at the far node with the same circuit id, and the other end of that is the interface itself.",
 ['inputs','configurations'],"Every valid topology, in FlexModel with any number of parallel links between the same nodes, in any failure state.",
 "Tests count circuits of fixed topologies.",
 PF+['interface.py','circuit.py','master_model.py'],[('pairing','_make_circuits, _make_circuits_multidigraph'),('other end','Interface.get_remote_interface'),('lookup','get_circuit_object_from_interface')],
 [('circuit_objects','circuits','master_model.py')],['circuit_objects','Interface.get_remote_interface','Interface.get_circuit_object'])
p('C18','Reports agree with the simulation results they summarise',
 "After update_simulation, an interface's demands and LSPs are exactly the demands and LSPs whose paths cross it (demands also through LSPs), its utilization is its traffic as a percentage of capacity, a routed LSP's demands and traffic are exactly those its path share carries, and the simulation diagnostics, unrouted-demand, failed-element and per-node demand lists list exactly the matching objects with the right counts. Reports change nothing.",
 ['inputs','configurations'],"Every simulated model, with any mix of routed and unrouted demands and LSPs, failed elements and orphan nodes."+DOM,
 "Tests compare a few literal reports.",
 ['interface.py','rsvp.py','node.py','master_model.py'],[('reports','Interface.demands / lsps / utilization, RSVP_LSP.demands_on_lsp / traffic_on_lsp, simulation_diagnostics, get_unrouted_demand_objects, get_failed_*, get_demand_objects_*')],
 [],['return values'])
p('C19','IGP shortcuts give complete paths that use only eligible LSPs',
 "After update_simulation of a FlexModel, every path of a routed demand is an unbroken chain from the demand's source to its destination in which each interface or LSP starts at the node where the previous one ends, and every LSP in a path that does not join the demand's own endpoints is routed, starts at a node with IGP shortcuts enabled, and has the lowest effective metric among the routed LSPs with its endpoints. On each least-cost path, traffic at a node with IGP shortcuts enabled takes an LSP to the furthest node ahead on that path that such an LSP reaches, and of the resulting paths those of least total metric are used; with no such node no demand uses a shortcut.",
 ['inputs','configurations'],"Every FlexModel topology with any set of shortcut-enabled nodes, LSPs, metrics and parallel links."+DOM,
 "Tests use a few fixed shortcut topologies; the combination with ECMP and parallel LSPs is not sampled.",
 ['flex_model.py'],[('shortcuts','find_igp_shortcuts, _insert_lsp_shortcuts, _insert_lsps_into_path, _inspect_for_lsp_metrics')],
 [],['Demand.path','Demand.path_detail'])
p('C20','LSP metrics follow the documented precedence',
 "An LSP's effective metric is its manual metric if one is set (from configuration or assignment; -1 clears it), otherwise the cost of the least-cost path from its source to its destination over non-failed interfaces whatever path it takes itself, and 'Unrouted' if it is unrouted without a manual metric. Its topology metric is the sum of the costs of the interfaces it actually crosses, or 'Unrouted'.",
 ['inputs','histories'],"Every LSP, routing outcome and sequence of metric assignments.",
 "Tests assign a few values.",
 ['rsvp.py'],[('metrics','RSVP_LSP.manual_metric, effective_metric, topology_metric'),('path cost','get_shortest_path')],
 [('manual metric','configured or assigned','rsvp.py')],['RSVP_LSP.effective_metric','RSVP_LSP.topology_metric','RSVP_LSP.manual_metric'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S); assert x['statement'].count('. ')<=2, x['id']
print(len(P))
