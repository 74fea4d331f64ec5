"""P13  Names, orientation, order and way of construction do not matter."""
import copy

import numpy as np

import common
import gen
import oracle
from core import Skip

ID = "P13"
QUICK = 1500
THOROUGH = 25000
RULE = ("One design is built twice: with other node keys (permuted, sparse, negative, huge), reversed edges, shuffled "
        "insertion of nodes, edges, supports and loads, by key or by coordinates, from lines and points, with the nodes "
        "created by the edges themselves, with tuples, compas or numpy geometry, supports and loads added before or after. "
        "Trails, sequences and the whole form must correspond node by node. Distinct = variation x engine x signature.")
MUST_OBSERVE = ["forms_compared", "implicit_nodes", "by_points", "relabelled", "reversed_edges"]


def build_variant(rng, spec, ctx):
    """Build the spec in another way. Returns (topology, {old key: new key}, what)."""
    from compas.geometry import Line, Plane, Point, Vector
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport

    what = []
    keys = [k for k, _ in spec["nodes"]]
    coords = {k: list(p) for k, p in spec["nodes"]}
    mode = gen.pick(rng, ["keys", "keys", "points", "implicit"])
    what.append(mode)
    names = {k: k for k in keys}
    if rng.random() < 0.7:
        names = dict(zip(keys, gen.make_keys(rng, len(keys))))
        what.append("relabelled")
        ctx.event("relabelled")
    geo = gen.pick(rng, ["list", "tuple", "point", "array"])
    what.append(geo)

    def g(p):
        p = [float(x) for x in p]
        return {"list": p, "tuple": tuple(p), "point": Point(*p), "array": np.array(p)}[geo]

    def gv(q):
        q = [float(x) for x in q]
        return {"list": q, "tuple": tuple(q), "point": Vector(*q), "array": q}[geo]

    def shuffled(x):
        x = list(x)
        return [x[i] for i in rng.permutation(len(x))]

    topo = TopologyDiagram()
    nodes, edges = shuffled(keys), shuffled(spec["edges"])
    if mode != "implicit":
        for k in nodes:
            if mode == "points" and rng.random() < 0.5:
                names[k] = topo.add_node(Node.from_point(g(coords[k])))
            else:
                new = names[k]
                while topo.has_node(new):
                    new += 1000
                names[k] = topo.add_node(Node(new, g(coords[k])))
    else:
        ctx.event("implicit_nodes")
    if mode == "points":
        ctx.event("by_points")

    def ref(k):
        if mode == "keys":
            return names[k]
        if mode == "points" and rng.random() < 0.3:
            return names[k]
        return g(coords[k])

    def do_edges():
        for u, v, kind, value, plane in edges:
            if rng.random() < 0.5:
                u, v = v, u
                ctx.event("reversed_edges")
            a, b = ref(u), ref(v)
            if kind == "trail":
                kw = {"length": value}
                if plane is not None:
                    kw["plane"] = Plane(*plane) if rng.random() < 0.6 else (list(plane[0]), list(plane[1]))
                elif rng.random() < 0.3:
                    kw["plane"] = None
                cls = TrailEdge
            else:
                kw = {"force": value}
                cls = DeviationEdge
            if mode == "implicit" and rng.random() < 0.5 and geo != "array":
                e = topo.add_edge(cls.from_line(Line(a, b), **kw))
            elif mode == "implicit" and rng.random() < 0.5:
                e = topo.add_edge(cls.from_line((a, b), **kw))
            else:
                e = topo.add_edge(cls(a, b, **kw))
            e = tuple(e)
            if mode == "implicit":
                names[u], names[v] = e
            elif e != (names[u], names[v]):
                ctx.fail("edge between {} and {} was stored as {}".format(names[u], names[v], e), spec=spec)

    def do_supports():
        for k in shuffled(spec["supports"]):
            r = ref(k)
            topo.add_support(NodeSupport(r) if isinstance(r, int) else NodeSupport.from_point(r))

    def do_loads():
        for k, q in shuffled(spec["loads"]):
            r = ref(k)
            if isinstance(r, int):
                topo.add_load(NodeLoad(r, gv(q)))
            elif rng.random() < 0.5:
                topo.add_load(NodeLoad.from_point_and_vector(r, gv(q)))
            else:
                topo.add_load(NodeLoad(r, gv(q)))

    if mode == "implicit":
        do_edges()
        # nodes that no edge touches do not exist in a valid topology
        rest = [do_supports, do_loads]
    else:
        rest = [do_edges, do_supports, do_loads]
    for f in shuffled(rest):
        f()
    topo.build_trails()
    for o, k in spec["shifts"]:
        topo.shift_trail(names[o], k)
    return topo, names, what


def case(ctx):
    rng = ctx.rng
    spec, ref = gen.good_spec(rng)
    base = gen.build(spec)
    other, names, what = build_variant(rng, spec, ctx)
    if len(set(names.values())) != len(names) or set(names.values()) != set(other.nodes()):
        ctx.fail("the nodes of the variant do not correspond to the design: {} vs {}".format(names, list(other.nodes())), spec=spec)
    if other.number_of_edges() != len(spec["edges"]):
        ctx.fail("the variant has {} edges and should have {}".format(other.number_of_edges(), len(spec["edges"])), spec=spec)
    seq = oracle.sequences(spec)
    want = {names[t[0]]: tuple(names[n] for n in t) for t in spec["trails"]}
    got = {k: tuple(t) for k, t in other.trails(keys=True)}
    if got != want:
        ctx.fail("built as {}: trails are {} and should be {}".format(what, got, want), spec=spec)
    for n, k in seq.items():
        if other.node_sequence(names[n]) != k:
            ctx.fail("built as {}: node {} is in sequence {} instead of {}".format(what, names[n], other.node_sequence(names[n]), k), spec=spec)
    tx, tf = common.tolerances(spec, ref)
    for name, eng in common.engines():
        a = common.State(eng(base, tmax=300, eta=1e-10 * spec["gscale"]))
        b = common.State(eng(other, tmax=300, eta=1e-10 * spec["gscale"]))
        ctx.event("forms_compared")
        back = {v: k for k, v in names.items()}
        c = common.State.__new__(common.State)
        c.nodes = [back[n] for n in b.nodes]
        c.edges = [(back[u], back[v]) for u, v in b.edges]
        c.xyz = {back[n]: v for n, v in b.xyz.items()}
        c.load = {back[n]: v for n, v in b.load.items()}
        c.reaction = {back[n]: v for n, v in b.reaction.items()}
        c.force = {(back[u], back[v]): f for (u, v), f in b.force.items()}
        c.length = {(back[u], back[v]): f for (u, v), f in b.length.items()}
        c.supports = {back[n] for n in b.supports}
        diff = common.same_state(a, c, tx, tf) or common.compare_ref(a, ref, spec, tx, tf)
        if diff:
            ctx.fail("{}, built as {}: {}".format(name, what, diff), spec=spec)
        ctx.seen(name, tuple(what), common.spec_signature(spec))
    ctx.sample = common.spec_sample(spec, variation=what)
