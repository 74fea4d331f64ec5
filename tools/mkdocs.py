"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after a change, never by a check)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EQ = ["src/compas_cem/equilibrium/force.py", "src/compas_cem/equilibrium/force_numpy.py"]
TOPO = "src/compas_cem/diagrams/topology/topology.py"
FORM = "src/compas_cem/diagrams/form.py"
DIA = "src/compas_cem/diagrams/diagram.py"
NMIX = "src/compas_cem/diagrams/mixins/node_mixins.py"
EMIX = "src/compas_cem/diagrams/mixins/edge_mixins.py"
MESH = "src/compas_cem/diagrams/topology/mesh_mixins.py"
OPT = "src/compas_cem/optimization/optimizer.py"
OBJ = "src/compas_cem/optimization/objective_func.py"
GRAD = "src/compas_cem/optimization/grad.py"
NL = "src/compas_cem/optimization/nlopt.py"
CON = "src/compas_cem/optimization/constraints/"
PAR = "src/compas_cem/optimization/parameters/"

T = []


def P(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    T.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note))


P("P01", "Every returned form is in static equilibrium",
  "In every form diagram that form-finding returns (with either engine, and without cutting it short at a sequence), the forces of the edges meeting at each node, along the final directions of those edges, plus the node's load, plus the reaction at a support, sum to zero up to the convergence threshold. The reactions also balance all loads as a whole, in force and in moment, and only supports have reactions.",
  ["inputs", "configurations"],
  "Every well-formed topology (any number and length of trails, direct and indirect deviation edges, tension and compression, planes, shifted trails, auxiliary trails, any loads), either engine, every tmax and eta for which a form is returned.",
  "The tests compare five fixed structures with stored numbers; equilibrium is a statement about every structure, and a wrong term that is zero in those five (a load on a support, an edge between far sequences, a plane) passes them.",
  EQ, [("sequence-by-sequence equilibrium of the trail nodes, iterated until indirect edges settle", EQ[0] + ":equilibrium_state"),
       ("form diagram filled from the state", EQ[0] + ":form_update")],
  ["static_equilibrium()", "static_equilibrium_numpy()", "FormDiagram node/edge queries"],
  "runtime monitor: static-balance oracle on forms of generated workloads",
  "Every node and the whole body are balanced on each observed form by an oracle that knows only statics; coverage is the generated workload (random, hostile, large).")

P("P02", "The two form-finding engines agree",
  "For the same topology and settings, the pure Python and the numpy engine either both return forms with the same node positions, edge forces, signed lengths, reactions, loads and supports up to rounding, or both report that they did not converge. Neither returns numbers that are not finite, even when nodes coincide or a plane cannot be reached.",
  ["inputs", "configurations"],
  "Every well-formed topology including degenerate ones (coincident nodes joined by deviation edges, zero residuals, planes parallel to a trail or through its start), every tmax and eta.",
  "The tests check the engines separately on five fixed structures, none of which is degenerate or has planes.",
  EQ, [("two independent implementations of the same vector equations", EQ[0] + ", " + EQ[1])],
  ["static_equilibrium()", "static_equilibrium_numpy()"],
  "runtime monitor: differential oracle between engines and a reference solver",
  "Differential comparison on every generated structure, plus an independent reference solver for the well conditioned ones; agreement of both engines on a common mistake is caught by the reference and by P01.")

P("P03", "The form honours every prescribed input",
  "In every complete form, origin nodes stay at their input position; every trail edge has its prescribed signed length (the sign of the length giving tension or compression) or, if it has a plane that its direction can reach, ends on that plane; every deviation edge carries its prescribed signed force. Loads, supports, nodes and edges are those of the topology, and the length an edge reports is the distance between its ends with the sign of its force.",
  ["inputs", "configurations"],
  "Every well-formed topology and either engine; trail edges that carry no force are exempt from length and sign, as their direction is undefined.",
  "The tests look at the stored outputs of five structures without planes; each input must be honoured in every structure.",
  EQ + [FORM], [("trail node position from residual, length and plane", EQ[0] + ":equilibrium_state, node_equilibrium, trail_length_from_plane_intersection"), ("attributes copied to the form", EQ[0] + ":form_update, " + FORM + ":from_topology_diagram")],
  ["static_equilibrium()", "static_equilibrium_numpy()", "FormDiagram queries"],
  "runtime monitor: input-to-output contract assertions on every form",
  "Each prescribed value is compared to the form on every generated structure.")

P("P04", "Form-finding is a pure function of the current topology",
  "Form-finding leaves the topology it is given unchanged, whether it succeeds or fails, and its result depends only on the current contents of that topology and the settings: repeating a call gives the same form, and a topology with any history of edits and calls gives the form of a freshly built one. A form that was returned never changes afterwards unless the user changes it, and changing it does not change the topology.",
  ["histories", "inputs"],
  "Every history of edits (loads, lengths, forces, planes, positions, shifts), form-finding calls on this or other topologies by either engine, failing calls and writes to earlier forms.",
  "Each test builds one topology and calls the engine once.",
  EQ + [FORM], [("state built anew from the topology on every call", EQ[0] + ":equilibrium_state"), ("form made of copied attributes", FORM + ":from_topology_diagram")],
  ["topology dump before/after", "forms of fresh twins"],
  "runtime monitor: history replay against fresh twins, before/after state snapshots",
  "Histories of calls, edits, faults and mutations; each call is judged against a freshly built twin.")

P("P05", "Form-finding returns a settled form or says that it could not",
  "When form-finding with an iteration limit above one returns, one further iteration would move the nodes by no more than about the threshold eta; when the nodes did not come to rest within the limit, it raises an error and does not return a form. It never runs more iterations than the limit, and a topology whose trails were not built is refused. It stops as soon as the summed node displacement of an iteration falls to the threshold, so structures that settle within the limit are returned, and structures without indirect deviation edges are solved exactly even with a single iteration. A limit or threshold that is left out has its documented default.",
  ["inputs", "configurations"],
  "Every topology with indirect deviation edges of any strength (contracting, slow, oscillating, diverging), every tmax and eta, verbose or not, with or without callback, either engine.",
  "The tests never reach the iteration limit and look at no threshold.",
  EQ, [("loop over iterations with displacement test", EQ[0] + ":equilibrium_state, " + EQ[1] + ":equilibrium_state_numpy")],
  ["returned form or ValueError", "callback invocations"],
  "runtime monitor: fixed-point and stopping-rule oracle with threshold probing",
  "The travel per iteration is measured from outside and the stopping rule probed just above and below it; returned forms are tested as fixed points by an independent step.")

P("P06", "Partial form-finding stops exactly at the sequence asked for",
  "When form-finding is asked to stop at a sequence, all nodes up to that sequence are where the complete method would place them knowing only those sequences, in equilibrium with the force cut at the last one shown as a reaction there, and all later nodes stay at their input position with no reaction, the trail edges past the cut carry no force, and every edge reports the distance between its ends as its length. A cut at or after the last sequence gives the complete form, and a negative one is refused.",
  ["inputs", "configurations"],
  "Every topology and every cut from 0 to beyond the last sequence, shifted trails included.",
  "No test passes a last sequence.",
  EQ, [("sequence loop with cut", EQ[0] + ":equilibrium_state"), ("reactions at the cut", EQ[0] + ":form_update")],
  ["static_equilibrium(kmax=...)"],
  "runtime monitor: partial-solution reference oracle at every cut",
  "Every cut of every generated structure is compared with an independent partial solution.")

P("P07", "Trails partition the nodes; ill-formed topologies are refused",
  "After the trails are built every node is in exactly one trail, each trail runs from an origin along trail edges to exactly one support without repeating a node, and each trail edge belongs to exactly one trail. A topology for which this is impossible (missing or surplus supports, stray nodes, forks, loops, bridges between trails, no trail edges) is refused by building the trails or by form-finding instead of giving a form.",
  ["inputs"],
  "Every graph of trail and deviation edges, every key naming, orientation, insertion order and construction route.",
  "The tests build the trails of a few fixed diagrams and three kinds of invalid ones.",
  [TOPO] + EQ, [("walk from each support along trail edges, then assertions", TOPO + ":build_trails")],
  ["build_trails()", "trails(), origin/support queries", "static_equilibrium()"],
  "runtime monitor: trail-partition invariant checker with corruption workloads",
  "Trails are known by construction; each case is also corrupted in one way and must be refused.")

P("P08", "Rebuilding the trails after edits equals building from scratch",
  "However a topology was edited since its trails were last built, building them again gives the same origins, trails, sequences and form as a topology built from scratch with the current contents. Nothing of earlier trails (origins, types, sequences, shifts of trails that changed) lingers, nor of an attempt to build them that was refused.",
  ["histories"],
  "Every history of adding, removing, splitting, extending and trimming trails, adding, removing and rewiring edges, moving nodes, shifting, saving, copying, rebuilding and form-finding.",
  "Every test builds its trails exactly once.",
  [TOPO], [("reset of attributes at the start of a rebuild", TOPO + ":build_trails")],
  ["trail queries after each rebuild", "forms"],
  "runtime monitor: edit-history model and fresh-twin comparison",
  "After each rebuild in a random edit history, trail queries are compared to a model and forms to those of fresh twins.")

P("P09", "Auxiliary trails take in every unassigned node and disturb nothing else",
  "Building trails with auxiliary trails gives each node that no trail reaches a two-node trail of its own, from that node to a new support at the prescribed vector and length, on record as auxiliary; all other nodes, edges and trails remain as they were. Building again adds none for nodes that already have one and loses none on record, with the length each was made with even if the setting has changed since, and forms found with them are in equilibrium.",
  ["inputs", "histories"],
  "Every number and placement of unassigned nodes, auxiliary length and vector, and history of rebuilds, added nodes, deleted supports and JSON round trips.",
  "One fixed tree is built once in the tests.",
  [TOPO], [("auxiliary trail per unassigned node", TOPO + ":build_trails")],
  ["build_trails(auxiliary_trails=True)", "auxiliary_trails(), auxiliary edge queries"],
  "runtime monitor: before/after frame-condition checker over rebuild histories",
  "Each rebuild is compared with a model of which nodes need auxiliary trails; forms are compared to the reference equilibrium.")

P("P10", "Sequences and direct/indirect edges follow the trails and their shifts",
  "The sequence of a node is its position along its trail plus the sequence its trail was shifted to, a deviation edge is direct exactly if its ends share a sequence, and all queries about sequences and direct or indirect edges (values, predicates, iterators, counts, connected edges) agree with that after any series of shifts. Shifting a node that is not an origin, or to a negative sequence, is refused and changes nothing.",
  ["histories", "inputs"],
  "Every topology and every series of shifts, gaps between sequences included.",
  "The tests query two fixed unshifted diagrams.",
  [TOPO, EMIX, NMIX], [("sequence attribute on nodes", TOPO + ":shift_trail, trails_sequences"), ("classification by sequence", TOPO + ":is_direct_deviation_edge, is_indirect_deviation_edge")],
  ["all sequence and direct/indirect queries"],
  "runtime monitor: query-consistency checker against a construction model",
  "After each shift, every query is compared to a model computed from the construction.")

P("P11", "Shifting trails does not change the equilibrium",
  "For structures on which form-finding converges to a unique equilibrium, the converged form (positions, forces, lengths, reactions) is the same whatever sequences the trails are shifted to.",
  ["inputs", "configurations"],
  "Every topology with moderate deviation forces and every assignment of starting sequences, gaps included, either engine.",
  "No test shifts a trail.",
  [TOPO] + EQ, [("iteration over indirect edges until they settle", EQ[0] + ":equilibrium_state")],
  ["forms before and after shift_trail"],
  "runtime monitor: metamorphic oracle over shift assignments",
  "Each form under each shift assignment is compared to a shift-free reference equilibrium.")

P("P12", "Equilibrium does not depend on frame, units or sign convention",
  "Moving, rotating or mirroring the input of form-finding, changing the unit of length or of force, or reversing all loads, deviation forces and length signs together, transforms the resulting form (positions, forces, reactions, lengths) in the corresponding way and changes nothing else.",
  ["inputs"],
  "Every well conditioned topology and every rigid motion (far from the origin included), reflection, unit factor and composition of these, either engine, with eta in the unit in use.",
  "The tests hold five structures in one frame and one unit; absolute tolerances or axis mix-ups do not show there.",
  EQ, [("vector equations without absolute scales", EQ[0])],
  ["pairs of forms"],
  "runtime monitor: metamorphic (symmetry) oracle on pairs of executions",
  "Pairs of executions on transformed input; the transformations are composed at random.")

P("P13", "Names, orientation, order and construction route do not matter",
  "Two topologies with the same geometry, edges, loads and supports give corresponding trails, sequences and forms, however nodes are named, edges oriented, elements ordered or inserted, and whether they are given by key, by coordinates, or from lines and points.",
  ["inputs", "histories"],
  "Every design and every pair of ways to build it (integer keys of any kind, orders, orientations, geometry types, loads and supports before or after edges).",
  "Each test builds a structure in one way.",
  [TOPO, DIA, NMIX, EMIX, "src/compas_cem/elements/edge.py", "src/compas_cem/elements/node.py"], [("lookup of nodes by coordinates when elements are added", DIA), ("edge lookup in both directions", EMIX)],
  ["pairs of topologies and forms"],
  "runtime monitor: metamorphic oracle on differently built twins",
  "Twins of one design, built in two random ways, compared node by node.")

P("P14", "A location finds the node that is there, and only that one",
  "At any time, looking up the location of a node (to the tolerance of the diagram) gives that node, and looking up a location where no node is gives none, so loads, supports and edges given by coordinates attach to the node that is there, or create or refuse one if there is none. This holds after nodes are added, moved, deleted, copied or saved, for form diagrams, and after an optimizer moved origin nodes.",
  ["histories", "inputs"],
  "Every history of these operations over locations that are distinct at the tolerance, every tolerance.",
  "The tests never move or delete a node.",
  [DIA, NMIX, TOPO, FORM, OPT], [("table from geometric key to node kept next to the graph", DIA)],
  ["node_key(), add_load/add_support/add_edge by coordinates"],
  "runtime monitor: lookup-consistency invariant after each operation of a history",
  "After every operation all occupied, vacated and never-used locations are looked up.")

P("P15", "What a diagram reports about itself is what was put into it",
  "After any history of edits, every query of a topology about nodes, edges by type, attributes (lengths, forces, planes), loads, supports, counts, predicates and connected edges answers exactly what was put in and not since overwritten or removed, including queries of loads and nodes by minimum magnitude. A form reports the loads, supports and edges of its topology, and the caller's element objects are not changed by adding them.",
  ["histories"],
  "Every history of adding, overwriting, rewiring, flipping, recasting and removing nodes, edges, loads and supports.",
  "The tests query static diagrams with a handful of elements.",
  [DIA, TOPO, FORM, NMIX, EMIX], [("attributes with types on nodes and edges", NMIX + ", " + EMIX)],
  ["all public queries of TopologyDiagram and FormDiagram"],
  "runtime monitor: model-based query checker after each edit",
  "All queries are compared to a plain model after each edit.")

P("P16", "Diagrams survive being saved, sent and copied",
  "A topology or form diagram that was written to JSON and read back, turned into data and back, copied, deep-copied or pickled answers every query as the original did, including trails, auxiliary trails, sequences and node lookup by location, gives the same form, and can be edited, rebuilt and solved further. Copies and files do not share state with the original.",
  ["inputs", "histories"],
  "Every diagram (trails built or not, shifted, with planes, auxiliary trails, optimized) and every chain of these transports. Diagrams made directly from another's in-memory data dictionary may share it.",
  "No test writes or reads a diagram it then uses for form-finding with trails, shifts or auxiliary trails.",
  [DIA, TOPO, FORM, "src/compas_cem/data/data.py"], [("data property with trails and lookup table", DIA + ", " + TOPO)],
  ["dump of all queries before and after transport"],
  "runtime monitor: round-trip oracle over chains of transports",
  "All queries and the form are compared before and after each chain.")

P("P17", "Constraints and parameters survive being saved, sent and copied",
  "A constraint or optimization parameter that was written to JSON and read back, turned into data and back, copied or pickled has the same type, key, weight, target, start value and bounds, and the same effect on an optimization as the original.",
  ["inputs"],
  "All constraint and parameter types, targets as compas geometry or plain lists, any weights and bounds including open ones, every chain of transports.",
  "No test touches constraints or parameters.",
  [CON + "constraint.py", PAR + "parameter.py", "src/compas_cem/data/data.py"], [("data property of constraints and parameters", CON + ", " + PAR)],
  ["penalty(), bound_low/up(), start_value()"],
  "runtime monitor: round-trip oracle over chains of transports",
  "Penalties on random states and bounds on random topologies are compared before and after.")

P("P18", "A constraint costs its weight times the squared distance to its target",
  "The penalty of a constraint is its weight times the squared distance between the constrained quantity (position of a node, reaction force at a support, force or length of an edge, unit direction of an edge) in the given equilibrium state and its target or, for a line, plane or polyline, the closest point on it. It is zero exactly on the target, an edge direction counts regardless of the edge's orientation, the weight is one unless given, and evaluating it changes nothing.",
  ["inputs"],
  "All constraint types except the one on meshes, all targets, weights, keys and equilibrium states, computed by the engines or synthetic.",
  "No test touches constraints.",
  [CON + f for f in ("constraint.py", "point.py", "line.py", "plane.py", "polyline.py", "force.py", "length.py", "direction.py")],
  [("penalty from target and reference", CON + "constraint.py:penalty")],
  ["Constraint.penalty(), target(), reference()"],
  "runtime monitor: independent geometric oracle for every evaluated penalty",
  "Each penalty is compared with an independent computation on engine-made and synthetic states.")

P("P19", "The solver gets the right objective value and gradient at every trial",
  "At every point the optimizer hands to the numerical solver, the objective value is the sum of the penalties of the constraints at the equilibrium form of these parameter values, and the gradient is the derivative of that computation, that is of the form-finding iterations that were run: exact with automatic differentiation, a forward difference with the given step with finite differences.",
  ["inputs", "configurations", "histories"],
  "All problems made of the eight parameter and eight constraint types, all algorithms, both gradient methods, every trial point along a run at which the objective is differentiable.",
  "No test runs an optimization.",
  [OPT, OBJ, GRAD, NL] + EQ, [("objective evaluates form-finding at x", OBJ), ("gradients", GRAD)],
  ["log of (x, f, gradient) at the nlopt boundary"],
  "runtime monitor: solver-boundary trace checked against an independent objective",
  "Every recorded value and sampled gradient components are compared with an independent solver and its differences.")

P("P20", "What the optimizer returns and reports describes one and the same result",
  "After an optimization the optimal parameters, the parameter values held by the topology, the returned form (found with the given tmax and eta), the reported objective value and gradient norm and the evaluation count all belong to the same point, the best one the solver reported, even if the solver tried other points after it or ended in roundoff trouble.",
  ["inputs", "configurations", "fault_sequences"],
  "All problems, algorithms, gradient methods, stopping criteria, repeated solves, and solver failures at any evaluation.",
  "No test runs an optimization.",
  [OPT, NL], [("result handling after the solver returns or raises", OPT + ":solve")],
  ["solver-boundary log", "optimizer attributes", "topology and form"],
  "runtime monitor: result-consistency oracle with injected solver faults",
  "Results are cross-checked against the recorded solver log and an independent computation; faults are injected at chosen evaluations.")

P("P21", "The optimizer moves only its parameters, and only within their bounds",
  "Every trial and result keeps each parameter between its start value minus the size of its lower and plus the size of its upper bound, where the start is what the topology held when the solve began and an open bound does not limit. Nothing else of the topology changes (other attributes, trails, sequences, edges, supports), over any number of successive solves.",
  ["inputs", "histories", "configurations"],
  "All parameter types, signed, zero, open and absent bounds, all algorithms, any number of successive solves.",
  "No test runs an optimization.",
  [OPT, PAR + "parameter.py", PAR + "origin.py", PAR + "load.py", PAR + "trail.py", PAR + "deviation.py", OBJ],
  [("bounds relative to start values", PAR + "parameter.py"), ("assignment of x to the topology", OPT)],
  ["box and trials at the solver boundary", "topology dump before/after"],
  "runtime monitor: box and frame-condition checker on the solver trace",
  "Every trial of every run is checked against the box; the topology is compared attribute by attribute.")

P("P22", "The optimizer improves, stops when told and reports truthfully",
  "The result of an optimization is no worse than its start and than any point tried; the run ends within the iteration limit and soon after the objective falls below eps or stops changing by more than kappa, uses the algorithm that was named, and its status says how it ended. Limits and thresholds that are left out have their documented defaults. Problems without parameters or constraints and unknown algorithm or gradient names are refused and leave the topology and earlier results alone.",
  ["inputs", "configurations", "fault_sequences"],
  "All problems, six algorithms, both gradient methods, all combinations of iteration limit, eps and kappa.",
  "No test runs an optimization.",
  [OPT, NL], [("stopping criteria passed to the solver", NL), ("gradient-norm stop", OBJ), ("checks before solving", OPT + ":check_optimization_sanity")],
  ["solver-boundary log", "optimizer.status, .penalty, .evals"],
  "runtime monitor: stopping-rule and status checker on the solver trace",
  "The recorded trace decides whether limits, thresholds and status were honoured.")

P("P23", "The optimizer works on the parameters and constraints it holds now",
  "After any history of adding and removing parameters and constraints and of solves in between, the optimizer holds exactly those added and not removed, removing an unknown one raises KeyError and changes nothing, and a solve varies exactly the held parameters, against the sum of the penalties of exactly the held constraints. Optimizers do not share anything.",
  ["histories"],
  "Every history of additions, removals, replacements and solves, several optimizers side by side.",
  "No test uses the optimizer.",
  [OPT], [("dictionaries of parameters and constraints by key", OPT)],
  ["counters and collections", "solver boundary"],
  "runtime monitor: history model and solver-boundary trace",
  "Contents are compared to a model after each operation, and the solver boundary shows which problem was solved.")

P("P24", "Solving a problem remotely gives what solving it here gives",
  "Handing a topology, constraints, parameters and settings to the remote solving service, as text over RPC or as a plain call, gives the topology, form, objective, gradient norm, evaluation count and status that a local optimizer with the same input and settings gives, trails included. A remote call does not touch the caller's topology, and failures come back as errors.",
  ["inputs", "configurations", "fault_sequences"],
  "All problems, algorithms and settings, defaults included; solver failures and ill-posed input.",
  "No test calls the service.",
  ["src/compas_cem/optimization/proxy.py", OPT, "src/compas_cem/data/data.py"], [("solve_proxy packs and unpacks diagrams", "src/compas_cem/optimization/proxy.py")],
  ["solve_proxy() called directly and through the JSON dispatcher"],
  "runtime monitor: differential oracle between local and dispatched executions",
  "Each problem is solved locally and through the service; the dispatcher that the RPC server uses runs in process, so no socket is involved.")

P("P25", "A topology made from the dual of a quad mesh keeps the mesh",
  "Converting a quad mesh with supports gives a topology with its vertices at their places, its supports, and one edge for each mesh edge that does not run along a row of supports: the polyedges that end in supports become trails (one trail if one end is supported, two trails meeting at a central deviation edge if both are) and the others deviation edges. Every edge has the prescribed state, force and length (the mesh edge's own length if none is given).",
  ["inputs", "configurations"],
  "Every quad mesh (open or closed, any size, geometry, vertex keys, polyedge order and direction) and every support pattern.",
  "No test converts a mesh.",
  [MESH], [("polyedges sorted into trails and deviation edges", MESH)],
  ["TopologyDiagram.from_dualquadmesh()"],
  "runtime monitor: independent conversion oracle on generated meshes",
  "compas_singular is not installed; the conversion is driven with a mesh object offering the same queries.")

P("P26", "A plot shows the diagram",
  "A diagram added to a plotter is drawn with its nodes and edges (or the selected ones) where they are, coloured by state, type, support or sequence as documented, with force-dependent widths if asked for, with load and reaction arrows whose size and direction are the scaled vectors, and labels with the right keys and values; what is below the tolerance or switched off is not drawn, what reaches it is. The colour of a sequence does not depend on what is selected, and drawing the nodes and edges again does not double them. Drawing does not change the diagram.",
  ["inputs", "configurations"],
  "Every topology and form diagram and every combination of drawing options.",
  "No test draws anything.",
  ["src/compas_cem/plotters/formartist.py", "src/compas_cem/plotters/topologyartist.py", "src/compas_cem/plotters/plotter.py"],
  [("artists derived from the compas network artist", "src/compas_cem/plotters/")],
  ["matplotlib axes: collections, patches, texts"],
  "runtime monitor: canvas observer compared with the diagram",
  "The matplotlib canvas is read after drawing and compared with the diagram.")

P("P27", "The Grasshopper components do what the API does",
  "A topology assembled, shifted, moved, taken apart, exported, imported, form-found or optimized with the Grasshopper components equals what the same calls to the Python API give, each declared output holds what its name says, inputs that are not connected give nothing or the documented default, what a component receives is not changed by it, and a temporary optimization server does not outlive the component that started it.",
  ["inputs", "histories", "configurations"],
  "Every structure drawn in Rhino, every choice of connected and unconnected inputs, every constrained form-finding problem, with a proxy running or not.",
  "The components cannot be imported outside Grasshopper, so no test runs any of them.",
  ["src/compas_cem/ghpython/components/"],
  [("one RunScript per component, with metadata that names its inputs and outputs", "src/compas_cem/ghpython/components/"),
   ("the components of the constrained workflow, which talk to a proxy", "src/compas_cem/ghpython/components/CompasCem_ConstrainedFormFinding/code.py")],
  ["component outputs", "proxy calls", "exported files"],
  "runtime monitor: workflow replay against the Python API and a reference equilibrium",
  "Rhino's types and the Grasshopper runtime are stand-ins; compas_rhino, compas_ghpython and the component scripts are the real ones.")

P("P28", "Grasshopper artists draw what is selected, where it is",
  "The Grasshopper artists return the points, lines and polylines of the selected nodes, edges, supports, origins, trail and deviation edges and trails (all of them when nothing is selected, none when the selection has none), one per selected key in the order given, at the coordinates of the diagram, and one arrow per load or reaction that reaches the threshold, equal to the scaled vector and attached to its node. Drawing does not change the diagram.",
  ["inputs", "configurations"],
  "Every topology and form diagram, every selection, scale, gap and threshold.",
  "The artists cannot be imported outside Grasshopper, so no test runs them.",
  ["src/compas_cem/ghpython/artists.py", "src/compas_cem/ghpython/components/CompasCem_ArtistForm/code.py",
   "src/compas_cem/ghpython/components/CompasCem_ArtistTopology/code.py"],
  [("artists derived from the Grasshopper network artist", "src/compas_cem/ghpython/artists.py")],
  ["Rhino points, lines and polylines handed to Grasshopper"],
  "runtime monitor: recorded Rhino geometry compared with the diagram",
  "Rhino's geometry types are stand-ins that hold coordinates.")

P("P29", "A 3D viewer shows the diagram",
  "A diagram added to the 3D viewer is shown with its selected edges as cylinders between their nodes, as wide as asked for or as the force asks and coloured by state or type, the selected nodes where they are and coloured by role, load and reaction arrows equal to the scaled vectors at their nodes, and the labels asked for; what is below the threshold or switched off is not shown, what reaches it is. Showing a diagram does not change it.",
  ["inputs", "configurations"],
  "Every topology and form diagram and every combination of viewer options.",
  "The viewer needs a display, so no test opens one.",
  ["src/compas_cem/viewers/diagramobject.py", "src/compas_cem/viewers/formobject.py", "src/compas_cem/viewers/topologyobject.py",
   "src/compas_cem/viewers/viewer.py"],
  [("objects registered for both diagrams that add shapes to the viewer", "src/compas_cem/viewers/")],
  ["shapes added to the viewer"],
  "runtime monitor: recorded viewer shapes compared with the diagram",
  "compas_view2 and a display are not installed; a stand-in records the shapes that the real objects add.")

NA = [
    ("P91", "A node can be pulled to the closest point of a mesh",
     "The constraint that ties a node to a mesh costs the squared distance to the closest point on the mesh.",
     ["inputs"], "Every mesh and equilibrium state.", "No test touches constraints.",
     [CON + "mesh.py"], "The constraint is switched off in the package, imports a module that does not exist and needs trimesh, which is not installed; it cannot be executed here."),
]


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for t in T:
            f.write(json.dumps({"id": t["id"], "title": t["title"], "statement": t["statement"],
                                "quantifier": {"over": t["over"], "text": t["text"]},
                                "why_tests_cant": t["why"],
                                "anchors": {"files": t["files"],
                                            "mechanism": [{"name": a, "where": b} for a, b in t["mechanism"]],
                                            "observe_at": t["observe"], "hook_needed": None}}) + "\n")
        for id, title, st, over, text, why, files, reason in NA:
            f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
                                "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": "drawing code" if id == "P90" else "closest point query", "where": files[0]}],
                                            "hook_needed": None}}) + "\n")
    man = {"version": 1,
           "setup_cmd": "/opt/venv/bin/python check.py --selftest",
           "checks": [{"property": t["id"],
                       "quick_cmd": "/opt/venv/bin/python check.py {} --tier quick".format(t["id"]),
                       "thorough_cmd": "/opt/venv/bin/python check.py {} --tier thorough".format(t["id"]),
                       "technique": t["technique"], "level": "exploration", "level_note": t["note"]} for t in T],
           "not_applicable": [{"property": n[0], "reason": n[7]} for n in NA],
           "notes": "All checks import compas_cem from /repo/src at its current working tree (source text, never cached bytecode). No hooks in /repo: the monitors observe public API results, the nlopt boundary, the RPC dispatcher, the matplotlib canvas and the geometry handed to Rhino or the viewer from outside."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
