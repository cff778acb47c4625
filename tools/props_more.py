CLSF = 'bpmn_python/graph/classes/'
prop('C14', 'Class-model objects keep every field valid: accept, store, reject atomically',
     'Every object of the BPMN class model starts with the documented defaults, every setter stores exactly the given value when it is of the '
     'documented kind (including None for optional fields and every element of list fields) so that its getter returns it, and raises '
     'TypeError or ValueError otherwise. A rejected call changes no field, and an accepted one changes no other field nor any other object.',
     ['inputs', 'histories'], 'every class of the model, every field, every value, from any reachable object state',
     'no test touches the class model at all, and a sampled value cannot show that every wrong kind of value is rejected without side effects',
     [CLSF + 'base_element_type.py', CLSF + 'flow_node_type.py', CLSF + 'sequence_flow_type.py', CLSF + 'lane_type.py',
      CLSF + 'root_element/process_type.py', CLSF + 'activities/subprocess_type.py', CLSF + 'gateways/gateway_type.py'],
     [('constructors, getters and setters of all 27 classes', CLSF + '**/*.py')],
     'one obligation family per class and field, proved for values of every kind (strings, numbers, booleans, None, model objects, lists of any length)')
prop('C08', 'Complexity metrics equal their definitions on every diagram',
     'Every size and complexity metric (node, activity, gateway and event counts, TNSE/TNIE/TNEE/TNE, NOA/NOAC/NOAJS, number of nodes, gateway '
     'heterogeneity, coefficient of network complexity, average gateway degree, Durfee and perfect square) returns exactly the value its '
     'definition gives for the elements and flows stored in the diagram, and leaves the diagram unchanged.',
     ['inputs'], 'every diagram (any number of elements and flows; ratios where the denominator is not zero)',
     'tests compute the metrics of a few example files; a wrong type list, a double count or a boundary slip shows only on other mixes of elements',
     ['bpmn_python/bpmn_diagram_metrics.py', REPF], [('metric functions', 'bpmn_python/bpmn_diagram_metrics.py'), ('get_nodes*', REPF)],
     'functional contract per metric proved for diagrams of any size; Durfee and perfect square for up to 17 distinct element types (all the library knows)')
prop('C09', 'Segment and crossing-point metrics agree with plane geometry',
     'The flow segments of a diagram are exactly the consecutive waypoint pairs of each flow, the segment count is their number, two segments '
     'are reported to intersect exactly when they have a point in common, and the crossing count is the number of segment pairs that meet '
     'without sharing an end point. Computing these metrics leaves the diagram and its waypoints unchanged.',
     ['inputs'], 'every diagram whose flows have waypoints, every pair of segments including degenerate, collinear and touching ones',
     'tests count crossings of a few drawings; degenerate and collinear configurations are measure-zero and never sampled',
     ['bpmn_python/diagram_layout_metrics.py'],
     [('geometry', 'bpmn_python/diagram_layout_metrics.py: do_intersect, orientation, lies_on_segment, segments_common_points, points_are_equal'),
      ('segments and counts', 'bpmn_python/diagram_layout_metrics.py: get_flows_segments, count_segments, count_crossing_points')],
     'functional contracts proved for any number of flows and waypoints and all real coordinates, plus lemmas (nonlinear real arithmetic) that the '
     'intersection predicate is equivalent to the existence of a common point; floats treated as reals')
IMPF = 'bpmn_python/bpmn_diagram_import.py'
prop('C04', 'XML import represents every element of the document, once and faithfully',
     'Loading a BPMN 2.0 document gives a diagram that holds exactly the elements of the document the library knows: every flow node with its '
     'kind, name, attributes (or their documented defaults), event definitions in document order and incoming/outgoing lists, in the process or '
     'sub-process that contains it (at any nesting depth); every sequence and message flow with its ends, name, condition and waypoints; every '
     'process, participant, lane and child lane with its references; and the position and size from its shape. Comments, white space, unknown '
     'elements, namespace prefixes and element order inside the document make no difference beyond the order they define.',
     ['inputs'], 'every well-formed BPMN document (unique ids, texts in incoming/outgoing/flowNodeRef/conditionExpression, bounds in shapes, a diagram with a plane)',
     'tests load a handful of files and mostly check nothing or a count; attribute defaults, nesting, optional parts and unusual order are not covered',
     [IMPF, 'bpmn_python/bpmn_import_utils.py', REPF], [('importers', IMPF), ('load_diagram_from_xml_file', REPF)],
     'one functional contract per importer proved for elements with any number of children, attributes and texts; drivers (process, sub-process at any '
     'depth, collaboration, document) proved against the contracts of the importers they call; minidom is a trusted library, described by an axiomatic model')
EXPF = 'bpmn_python/bpmn_diagram_export.py'
prop('C05', 'XML export writes every element of the diagram, once and faithfully',
     'Exporting a diagram with its layout writes a document that holds exactly what the diagram holds: every node with its kind, name, '
     'attributes, event definitions and incoming/outgoing references inside its process or sub-process; every sequence and message flow with its '
     'ends, name and condition; every process, participant, lane set, lane and child lane with its references; one shape per node, participant '
     'and lane with its bounds and one edge per flow with all its waypoints in order. Pretty printing changes no name, reference or condition, '
     'and exporting leaves the diagram unchanged.',
     ['inputs'], 'every diagram whose records are complete (positions for nodes, waypoints for flows, types the library writes, strings throughout)',
     'tests export a few loaded examples and mostly look at nothing but that no exception is raised',
     [EXPF, REPF], [('element writers', EXPF), ('export_xml_file', REPF)],
     'one functional contract per element writer proved for records with any number of references, waypoints, definitions and children; the document '
     'driver proved against the contracts of the writers it calls, for any number of processes, nodes, flows, lanes and participants; ElementTree is '
     'modelled, indent is proved for nesting levels 0-8')
prop('C07', 'XML export without layout writes the content of every process, once',
     'Exporting a diagram without its layout writes every process with its attributes, and in it each of its nodes (with sub-process content '
     'nested inside the sub-process) and each of its sequence flows exactly once, with the same content as the full export and no layout '
     'information. It needs no positions or waypoints and leaves the diagram unchanged.',
     ['inputs'], 'every diagram whose records are complete apart from layout (types the library writes, strings throughout); collaborations and lanes are not written',
     'tests export one or two examples without layout and look only for the absence of an exception',
     [EXPF, REPF], [('export_xml_file_no_di', EXPF), ('export_node_data, export_flow_process_data', EXPF)],
     'functional contract of the writers and of the driver, proved for any number of processes, nodes and flows; ElementTree modelled, indent proved for levels 0-8')
prop('C06', 'Export then import gives back the same diagram',
     'Exporting a diagram to XML and loading the file into a new diagram gives back the same diagram: the same nodes with the same records, the same '
     'flows with their ends, names, conditions and waypoints, the same processes, participants, message flows, lane sets and (nested) lanes, '
     'with the same positions and sizes, up to the defaults the format fills in for what was left unset. Nothing is lost, duplicated or moved.',
     ['inputs', 'histories'], 'every complete diagram (as C05) with known event definitions and no empty flow id or condition, however it was built or loaded',
     'tests re-read exported examples and compare, at best, counts; asymmetries between writer and reader appear only for records the examples do not have',
     [EXPF, IMPF, REPF], [('writer', EXPF), ('reader', IMPF), ('export_xml_file, load_diagram_from_xml_file', REPF)],
     'per kind of element a lemma over the real writer composed with the real reader, for records of any size; the sub-process and the whole document '
     'by induction over the same lemmas (each element written is read back once, into its owner); the parsed form of a written tree is trusted '
     '(ElementTree.write then minidom.parse) and re-checked with real files under CPython')
prop('C10', 'Longest-path metrics return a real, longest path',
     'compute_longest_path returns a path of the diagram (from a node without incoming flows, along flows from source to target, to a node without '
     'outgoing flows, visiting no node twice) of the greatest possible length, and its length; compute_longest_path_tasks returns the tasks and '
     'sub-processes, in order, of such a walk (ending anywhere) with the most of them, and their number. When there is no such path the result is '
     'empty. Both end on diagrams with cycles and self-loops and leave the diagram unchanged.',
     ['inputs'], 'every diagram whose nodes list existing incoming and outgoing flows, including cyclic, disconnected and empty ones',
     'tests measure one example file; ties, dead ends, cycles back into the path and self-loops do not occur in it',
     ['bpmn_python/diagram_layout_metrics.py'],
     [('longest paths', 'bpmn_python/diagram_layout_metrics.py: compute_longest_path, find_longest_path, compute_longest_path_tasks, find_longest_path_tasks')],
     'each function proved against a recursive definition for any number of nodes and outgoing flows: recursive calls are replaced by the contract '
     '(induction on the nodes not yet on the path), loops over successors by a fold whose step is proved equal; a lemma shows the step keeps the longer path')
LAYF = 'bpmn_python/bpmn_diagram_layouter.py'
prop('C11', 'Generated layouts give every node its own place and route every flow',
     'generate_layout ends and succeeds on every diagram: every node gets integer coordinates on the layout grid, no two nodes the same ones, nodes '
     'without incoming flows stand in the first column, and without cycles a node with one predecessor stands in the column right of it and a join '
     'right of one of its predecessors. Every flow gets way points from its source (x+50, y+50) to its target, bent at gateways: via (source x+50, '
     'target y+50) after a parallel, inclusive or exclusive gateway, otherwise via (target x+50, source y+50) into such a gateway in another row. '
     'Nothing else in the diagram changes.',
     ['inputs'], 'every diagram of flow nodes (all task, gateway, event, sub-process and data-object kinds; no pools), cyclic, disconnected or empty',
     'tests lay out two examples and assert nothing about the result; occupied cells, shared successors, and cycles do not occur in them',
     [LAYF, 'bpmn_python/grid_cell_class.py'],
     [('coordinates and routes', LAYF + ': set_coordinates_for_nodes, set_flows_waypoints'), ('grid', LAYF + ': insert_into_grid, place_element_in_grid, grid_layout'),
      ('order', LAYF + ': generate_elements_clasification, topological_sort')],
     'each step of the layout is proved against its contract for any diagram: classification; topological_sort (ends, lists every node once, after its '
     'predecessors if there are no cycles) and the placing of nodes in the grid by loop invariants over ghost state; insertion into the grid with the lemma '
     'that cells stay distinct; coordinates and way points; generate_layout as the composition of these contracts')

CSVX = 'bpmn_python/bpmn_process_csv_export.py'
prop('C12', 'CSV export lists every step of a process once, numbered and ordered by its flow',
     'export_csv_file writes the header and the rows of a process with exactly one element without incoming flows (otherwise it fails and writes '
     'nothing): that element has Order 0, the next element of a sequence the next number; the k-th branch of a split at N is numbered Na1, Na2, ... with '
     'the k-th letter, a branch leading directly to a join is one "goto" row naming the number after N, and the element after the join takes that '
     'number. Every start event, task, sub-process and end event of a block-structured process has exactly one row: its name (with "message " / '
     '"timer " for such events), Subprocess and Terminated marks, and as Condition of the first element of a branch the name of its flow ("else" for '
     'the default flow, nothing after parallel gateways). Every field reads back unchanged with a CSV reader, and the diagram is not modified.',
     ['inputs'], 'every acyclic diagram of tasks, sub-processes, start and end events and gateways; one row per step for block-structured ones in which no '
     'join leads directly to another join', 'tests export examples without looking at the files',
     [CSVX, 'bpmn_python/bpmn_import_utils.py', 'bpmn_python/bpmn_diagram_rep.py'],
     [('rows', CSVX + ': export_node, export_element, export_start_event, export_end_event'), ('file', CSVX + ': export_process_to_csv, write_export_node_to_file'),
      ('joins and splits', 'bpmn_python/bpmn_import_utils.py: generate_nodes_clasification')],
     'export_node proved for every node kind, any number of branches and any diagram against a recursive contract, recursive calls replaced by that '
     'contract; classification, file writing and the whole driver proved likewise; the one-row-per-step reading of the contract for block-structured '
     'processes is checked on generated processes against rows derived from the block structure')

CSVI = 'bpmn_python/bpmn_process_csv_import.py'
prop('C13', 'CSV import builds the nodes and flows that the numbered lines describe',
     'load_diagram_from_csv_file turns each line into one node with the Order as id and the Activity as name: line 0 a start event, a line with '
     'Terminated=yes an end event, with Subprocess=yes a sub-process, any other a task; cells are taken as text, blanks around an Order do not count. '
     'A line is followed by the next number of its branch (1 -> 2, 3a1 -> 3a2); otherwise, if branches start there (2a or 2a1, 2b, ...), by a split '
     'gateway with a flow to the first line of each branch: exclusive for two branches with conditions yes/no or an else, parallel when no branch has a '
     'condition, inclusive otherwise; otherwise by the first existing line after the enclosing branches, through a join of the type of its split; else '
     'the import fails. An end event is followed by nothing. A line "goto N" is replaced by a flow from the node before it to N with the condition of '
     'the goto line. A gateway left with one flow in and one out is replaced by a flow. A flow carries the condition of the line it leads to. Edges, flow '
     'table and incoming/outgoing lists agree.',
     ['inputs'], 'every file whose orders are numbers with a letter per branch ([0-9]+[a-zA-Z])*([0-9]+)?, loaded into a new diagram; each goto is reached by '
     'one flow and names an existing line, no two flows join the same two nodes',
     'tests import a handful of files and compare one or two with stored results; numbering depths, text that looks like numbers or missing values, '
     'merges of nested branches and gotos combine freely',
     [CSVI],
     [('nodes', CSVI + ': import_nodes_info, get_node_type, add_node_info_to_diagram_graph'),
      ('flows', CSVI + ': fill_graph_connections, get_gateway_type, get_merge_node_type, get_possible_*_continuation_successor(s), add_connection'),
      ('adjustment', CSVI + ': remove_goto_nodes, remove_unnecessary_merge_gateways, remove_node'),
      ('reading', CSVI + ': import_csv_file_as_dict, remove_white_spaces_in_orders')],
     'every function of the module proved against its contract for any lines and any diagram: the order arithmetic with the regular expressions of the '
     'code translated to z3 regular languages, loops one arbitrary iteration in an arbitrary state, the driver against the contracts of the parts; whole '
     'files are also imported and compared with the contract and with nodes and flows derived from a block structure')
