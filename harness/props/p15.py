"""P15  What a diagram reports about itself is what was put into it."""
import numpy as np

import common
import edits
import gen
import oracle
from core import Skip

ID = "P15"
QUICK = 2000
THOROUGH = 30000
RULE = ("Histories of 1-15 edits of a topology (nodes, trails, trail and deviation edges added, removed, rewired, flipped, "
        "recast, overwritten; loads set, replaced, cleared; supports; planes), mirrored by a plain model. After each edit "
        "every query of the diagram (node, edge, load, support collections, counters, predicates, connected edges, "
        "attributes, load thresholds) is compared with the model; forms must report the loads, supports and edges of "
        "their topology. Distinct = edit history x structure signature.")
MUST_OBSERVE = ["states_checked", "thresholds", "forms_checked", "supported_edges", "connected_edges", "element_inputs_kept", "large"]


def check(ctx, d, spec, label, topology=True):
    rng = ctx.rng

    def eq(got, want, what):
        ctx.event("queries_compared")
        if got != want:
            ctx.fail("{}{} is {} and should be {}".format(label, what, got, want), spec=spec)

    loads = {k: [0.0, 0.0, 0.0] for k, _ in spec["nodes"]}
    for k, q in spec["loads"]:
        loads[k] = list(q)
    eq(sorted(d.nodes()), sorted(loads), "the list of nodes")
    eq(d.number_of_nodes(), len(loads), "number_of_nodes()")
    eq({frozenset(e) for e in d.edges()}, {frozenset(e[:2]) for e in spec["edges"]}, "the list of edges")
    eq(d.number_of_edges(), len(spec["edges"]), "number_of_edges()")
    for k, q in loads.items():
        eq([float(c) for c in d.node_load(k)], q, "node_load({})".format(k))
    sup = set(spec["supports"])
    eq(sorted(d.support_nodes()), sorted(sup), "the list of supports")
    eq(d.number_of_support_nodes(), len(sup), "number_of_support_nodes()")
    mags = {k: float(np.linalg.norm(q)) for k, q in loads.items()}
    eq(sorted(d.loaded_nodes()), sorted(k for k in loads if mags[k] > 1e-6), "the list of loaded nodes")
    eq(d.number_of_loaded_nodes(), sum(1 for k in loads if mags[k] > 1e-6), "number_of_loaded_nodes()")
    for thr in (0.0, 1e-3, float(0.999 * gen.pick(rng, list(mags.values()))), float(1.001 * gen.pick(rng, list(mags.values()))) + 1e-12):
        if any(abs(v - thr) <= 1e-9 * max(v, 1e-300) and v > 0 for v in mags.values()):
            continue
        eq(sorted(d.loaded_nodes(thr)), sorted(k for k in loads if mags[k] > thr), "loaded_nodes({})".format(thr))
        ctx.event("thresholds")
    for k in loads:
        eq(bool(d.is_node_support(k)), k in sup, "is_node_support({})".format(k))
        eq(bool(d.is_node_loaded(k)), mags[k] > 1e-6, "is_node_loaded({})".format(k))
    for u, v, kind, value, plane in spec["edges"]:
        e = (u, v)
        if not d.has_edge(*e):
            eq(True, False, "has_edge({})".format(e))
        eq(bool(d.is_edge_supported(e)), u in sup or v in sup, "is_edge_supported({})".format(e))
        eq(bool(d.is_edge_supported((v, u))), u in sup or v in sup, "is_edge_supported({})".format((v, u)))
        ctx.event("supported_edges", int(u in sup or v in sup))
        if topology:
            eq(d.edge_attribute(e, "type"), kind, "the type of edge {}".format(e))
            if kind == "trail":
                eq(float(d.edge_length_2(e)), value, "edge_length_2({})".format(e))
                p = d.edge_plane(e)
                eq(p is None, plane is None, "the absence of a plane on edge {}".format(e))
                if plane is not None:
                    o, n = p
                    eq([list(map(float, o)), list(map(float, n))][0], list(plane[0]), "the plane origin of edge {}".format(e))
                    nn = np.array(plane[1]) / np.linalg.norm(plane[1])
                    gn = np.array([float(c) for c in n])
                    eq(bool(np.max(np.abs(gn / np.linalg.norm(gn) - nn)) < 1e-9), True, "the plane normal of edge {}".format(e))
            else:
                eq(float(d.edge_force(e)), value, "edge_force({})".format(e))
    if topology:
        for k in loads:
            for what, got, want in (
                    ("connected_trail_edges", d.connected_trail_edges(k),
                     {(e[0], e[1]) for e in spec["edges"] if k in e[:2] and e[2] == "trail"}),
                    ("connected_deviation_edges", d.connected_deviation_edges(k),
                     {(e[0], e[1]) for e in spec["edges"] if k in e[:2] and e[2] == "deviation"})):
                got = [tuple(e) for e in got]
                eq(sorted(got), sorted(want), "{}({})".format(what, k))
                ctx.event("connected_edges", len(got))
        for what, got, kind in (("trail", d.trail_edges, "trail"), ("deviation", d.deviation_edges, "deviation")):
            want = sorted((e[0], e[1]) for e in spec["edges"] if e[2] == kind)
            eq(sorted(tuple(e) for e in got()), want, "the list of {} edges".format(what))
        eq(d.number_of_trail_edges(), sum(1 for e in spec["edges"] if e[2] == "trail"), "number_of_trail_edges()")
        eq(d.number_of_deviation_edges(), sum(1 for e in spec["edges"] if e[2] == "deviation"), "number_of_deviation_edges()")
    ctx.event("states_checked")


def inputs_kept(ctx, spec):
    """Adding elements neither ties them to the diagram nor changes them."""
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    topo = TopologyDiagram()
    made = []
    for k, p in spec["nodes"]:
        xyz = list(p)
        topo.add_node(Node(k, xyz))
        made.append((xyz, list(p)))
    qs = dict((k, list(q)) for k, q in spec["loads"])
    elements = []
    for u, v, kind, value, plane in spec["edges"]:
        e = TrailEdge(u, v, length=value, plane=gen.spec_plane(plane)) if kind == "trail" else DeviationEdge(u, v, force=value)
        topo.add_edge(e)
        elements.append((e, kind, value))
    for k in spec["supports"]:
        topo.add_support(NodeSupport(k))
    for k, q in qs.items():
        v = list(q)
        topo.add_load(NodeLoad(k, v))
        made.append((v, list(q)))
    for e, kind, value in elements:
        if e.attributes["length" if kind == "trail" else "force"] != value:
            ctx.fail("adding an edge changed the edge element", spec=spec)
    # the diagram lives its own life from now on
    for obj, before in made:
        if obj != before:
            ctx.fail("adding an element changed the list it was given: {} became {}".format(before, obj), spec=spec)
        obj[0] = 1e6
    for e, kind, value in elements:
        e.attributes["length" if kind == "trail" else "force"] = -77.0
        e.attributes["type"] = "junk"
    ctx.event("element_inputs_kept")
    check(ctx, topo, spec, "after changing the elements that were added: ")


def case(ctx):
    rng = ctx.rng
    if ctx.index % 12 == 5:
        # many edges meet at one node, or many trails
        _, spec, _ = gen.exotic(rng, [gen.pick(rng, ["hub", "hub", "wide"])])
        spec["shifts"] = []
        ctx.event("large")
    else:
        spec = gen.raw_spec(rng, max_trails=4, max_len=4, shifts=False)
    if not gen.coords_distinct(spec):
        raise Skip()
    if ctx.index % 7 == 3:
        # loads next to the smallest that counts
        k = gen.pick(rng, spec["nodes"])[0]
        q = gen.pick(rng, [[8e-7] * 3, [-5e-7] * 3, [9e-7, 0.0, -9e-7], [0.0, 1.1e-6, 0.0], [0.0, 0.0, -9e-7], [-1e-6, 0.0, 0.0]])
        spec["loads"] = [x for x in spec["loads"] if x[0] != k] + [[k, list(q)]]
        ctx.event("loads_at_threshold")
    if ctx.index % 5 == 0:
        inputs_kept(ctx, spec)
    topo = gen.build(spec)
    check(ctx, topo, spec, "")
    history = []
    for _ in range(int(rng.integers(1, 16))):
        out = edits.structural_edit(rng, spec, topo)
        if out is None:
            continue
        kind, spec = out
        history.append(kind)
        if not gen.coords_distinct(spec):
            raise Skip()
        check(ctx, topo, spec, "after {}: ".format(history))
        ctx.seen(tuple(history), common.spec_signature(spec))
        if rng.random() < 0.15:
            topo.build_trails()
            spec["shifts"] = []
            check(ctx, topo, spec, "after {} and building trails: ".format(history))
            ref = oracle.solve(spec, max_iter=100)
            if gen.spec_ok(spec, ref):
                name, eng = gen.pick(rng, common.engines())
                form = eng(topo, tmax=200)
                check(ctx, form, spec, "form ({}) after {}: ".format(name, history), topology=False)
                check(ctx, topo, spec, "after {} and form-finding: ".format(history))
                ctx.event("forms_checked")
    ctx.sample = {"history": history, "trails": spec["trails"]}
