"""P28  Grasshopper artists draw what is selected, where it is."""
import numpy as np

import common
import gen
import ghc
import oracle
from core import Skip

ID = "P28"
QUICK = 6000
THOROUGH = 15000
CHUNK = 4
RULE = ("Random topologies and forms are drawn by the real Grasshopper artists (with the real compas_ghpython, on stand-ins of "
        "Rhino's types), directly and through the two artist components, for everything, for random selections of nodes and edges "
        "(also selections without supports, origins, trail or deviation edges), scales, gaps and thresholds. The monitor reads the "
        "Rhino points, lines and polylines that come out: the selected nodes and edges in order at their coordinates, supports, "
        "origins, trail and deviation edges only, one polyline per trail, one arrow per load and reaction that reaches the threshold, "
        "with its vector scaled and its tip or tail at the node. The diagram stays as it was. Distinct = artist x selection x signature.")
MUST_OBSERVE = ["points", "lines", "polylines", "load_arrows", "reaction_arrows", "arrows_left_out", "empty_selections", "selections",
                "components", "gaps", "exactly_at_threshold", "nothing_picked", "auxiliary", "repeated", "pushed", "pulled", "crowded_supports"]


def pts(x):
    return [ghc.xyz(p) for p in (x or [])]


def lines(x):
    return [ghc.xyz(s.From) + ghc.xyz(s.To) for s in (x or [])]


def same(ctx, got, want, what, spec, tol):
    got, want = np.array(got, dtype=float), np.array(want, dtype=float)
    if got.shape[0] != want.shape[0] or (got.size and not np.max(np.abs(got - want)) <= tol):
        ctx.fail("{}: drawn at {} instead of {}".format(what, got.tolist(), want.tolist()), spec=spec)


def subset(rng, items):
    items = list(items)
    n = int(rng.integers(1, len(items) + 1))
    return [items[i] for i in rng.permutation(len(items))[:n]]


def arrows(ctx, got, nodes, vec, at, scale, gap, least, what, spec, state):
    """One arrow per node whose vector reaches the threshold, in order."""
    g = spec["gscale"]
    drawn, sure = [], True
    for n in nodes:
        size = float(np.linalg.norm(vec[n]))
        if size == least and np.count_nonzero(vec[n]) == 1:
            drawn.append(n)   # exactly at the threshold
            ctx.event("exactly_at_threshold")
        elif abs(size - least) <= 1e-9 * max(1.0, least):
            sure = False
        elif size > least:
            drawn.append(n)
        else:
            ctx.event("arrows_left_out")
    if not sure:
        return
    if len(got) != len(drawn):
        ctx.fail("{}: {} arrows for the {} nodes {}".format(what, len(got), len(drawn), drawn), spec=spec)
    for n, a in zip(drawn, got):
        a = np.array(a)
        tail, tip = a[:3], a[3:]
        v = np.array(vec[n])
        d = v / np.linalg.norm(v)
        tol = 1e-9 * (1.0 + np.max(np.abs(at[n])) + g + np.linalg.norm(v) * abs(scale) + abs(gap))
        if np.max(np.abs((tip - tail) - scale * v)) > tol:
            ctx.fail("{}: the arrow at node {} is {} for the vector {} and scale {}".format(
                what, n, (tip - tail).tolist(), v.tolist(), scale), spec=spec)
        tail_ok = np.max(np.abs(tail - (at[n] + gap * d))) <= tol
        tip_ok = np.max(np.abs(tip - (at[n] - gap * d))) <= tol
        push = False if state is None else common.pushes(state, n)
        if push is None:
            ok = tail_ok or tip_ok   # as much tension as compression
        else:
            ok = tip_ok if push else tail_ok
            ctx.event("pushed" if push else "pulled", int(state is not None))
        if not ok:
            ctx.fail("{}: the arrow from {} to {} is not at node {}, which is at {} (gap {})".format(
                what, tail.tolist(), tip.tolist(), n, at[n].tolist(), gap), spec=spec)


def crowd(ctx, spec):
    """Several deviation edges meet at a support."""
    rng = ctx.rng
    n = gen.pick(rng, spec["supports"])
    linked = {m for e in spec["edges"] if n in e[:2] for m in e[:2]}
    for m in [m for m, _ in spec["nodes"] if m not in linked][:int(rng.integers(2, 6))]:
        spec["edges"].append([n, m, "deviation", float(rng.uniform(-0.3, 0.3) * spec["fscale"]), None])
    if not gen.spec_ok(spec, oracle.solve(spec, max_iter=90)):
        raise Skip()
    ctx.event("crowded_supports")


def case(ctx):
    ghc.setup()
    from compas_cem.ghpython import FormArtist, TopologyArtist
    rng = ctx.rng
    spec, ref = gen.good_spec(rng, max_trails=5, max_len=5)
    if rng.random() < 0.2:
        crowd(ctx, spec)
    topo = gen.build(spec)
    if rng.random() < 0.2:
        # a diagram that is still being made
        topo = gen.build(spec, trails=False)
    aux = []
    if topo.has_trails() and rng.random() < 0.25:
        from compas_cem.elements import DeviationEdge, Node
        base = list(topo.nodes())
        many = int(gen.pick(rng, [1, 2, 12]))
        for i in range(many):
            a = max(topo.nodes()) + 1
            topo.add_node(Node(a, gen.flist((rng.normal(size=3) + np.array([30.0 + 3 * i, 1.0, 2.0])) * spec["gscale"])))
            topo.add_edge(DeviationEdge(a, gen.pick(rng, base), force=1.5 * spec["fscale"]))
            aux.append(a)
        had = set(topo.nodes())
        topo.build_trails(auxiliary_trails=True)
        for origin, k in spec["shifts"]:
            topo.shift_trail(origin, k)
        if len(set(topo.nodes()) - had) != many:
            ctx.fail("{} auxiliary supports for {} loose nodes".format(len(set(topo.nodes()) - had), many), spec=spec)
        ctx.event("auxiliary")
    is_form = rng.random() < 0.5 and topo.has_trails() and not aux
    if is_form:
        d = common.engine("python")(topo, tmax=300, eta=1e-6 * spec["gscale"])
    else:
        d = topo
    exact = None
    if rng.random() < 0.2:
        exact = float(gen.pick(rng, [0.25, 1.0, 2.0]))
        for names in (["qx", "qy", "qz"], ["rx", "ry", "rz"]) if is_form else (["qx", "qy", "qz"],):
            for n in d.nodes():
                if rng.random() < 0.5 and (names[0] == "qx" or n in d.support_nodes()):
                    v = [0.0, 0.0, 0.0]
                    v[int(rng.integers(3))] = exact * float(gen.pick(rng, [-1.0, 1.0]))
                    d.node_attributes(n, names, v)
    text = common.topo_text(d)
    g, f = spec["gscale"], spec["fscale"]
    at = {n: np.array(d.node_coordinates(n), dtype=float) for n in d.nodes()}
    load = {n: np.array(d.node_load(n), dtype=float) for n in d.nodes()}
    reaction = {n: np.array(d.reaction_force(n), dtype=float) for n in d.nodes()}
    all_nodes, all_edges = list(d.nodes()), [tuple(e) for e in d.edges()]
    kinds = {frozenset(e[:2]): e[2] for e in spec["edges"]}
    trails = [list(t) for t in spec["trails"]] if topo.has_trails() else []
    supports, origins = set(spec["supports"]), {t[0] for t in trails}
    own = {k for k, _ in spec["nodes"]}
    for a in aux:
        links = [e for e in all_edges if a in e]
        b = [n for e in links for n in e if n != a and n not in own and n not in aux]
        if len(links) != 2 or len(b) != 1:
            ctx.fail("the loose node {} has the edges {}".format(a, links), spec=spec)
        for e in links:
            kinds[frozenset(e)] = "trail" if b[0] in e else "deviation"
        supports.add(b[0])
        origins.add(a)
        trails.append([a, b[0]])

    nodes = edges = None
    if rng.random() < 0.7:
        nodes = subset(rng, all_nodes)
        ctx.event("selections")
        if rng.random() < 0.3:
            rest = [n for n in all_nodes if n not in (supports if rng.random() < 0.5 else origins)]
            nodes = subset(rng, rest) if rest else nodes
    if rng.random() < 0.7 and all_edges:
        edges = subset(rng, all_edges)
        ctx.event("selections")
        if rng.random() < 0.3:
            k = gen.pick(rng, ["trail", "deviation"])
            only = [e for e in all_edges if kinds[frozenset(e)] == k]
            edges = subset(rng, only) if only else edges
    if nodes and edges and rng.random() < 0.1:
        # picked twice: drawn twice
        nodes, edges = nodes + nodes[:2], edges + edges[:1]
        ctx.event("repeated")
    pick_n, pick_e = nodes or all_nodes, edges or all_edges
    scale = float(gen.pick(rng, [1.0, 0.1, 3.0]))
    gap = float(gen.pick(rng, [0.0, 0.0, 0.25 * g, -0.1 * g]))
    least = float(gen.pick(rng, [1e-3, 0.3 * f, f, 5.0 * f]))
    if exact:
        least = exact
    via = rng.random() < 0.5
    if via:
        ctx.event("components")
        gap = 0.0
        if rng.random() < 0.3 and not exact:
            scale, least = 1.0, 1e-3
            args = [d, nodes, edges, None, None]
        else:
            args = [d, nodes if nodes is not None else gen.pick(rng, [None, []]), edges if edges is not None else gen.pick(rng, [None, []]),
                    least, scale]
        out = ghc.run(ctx, "ArtistForm" if is_form else "ArtistTopology", *args)
        if ghc.run(ctx, "ArtistForm" if is_form else "ArtistTopology", *([None] + args[1:])) is not None:
            ctx.fail("a component drew without a diagram")
    else:
        cls = FormArtist if is_form else TopologyArtist
        a = cls(d, artist_type=cls) if rng.random() < 0.5 else cls(d)
        out = {"nodes": a.draw_nodes(nodes), "edges": a.draw_edges(edges), "support_nodes": a.draw_nodes_support(nodes),
               "loads": a.draw_loads(nodes, scale=scale, gap=gap, min_load=least)}
        if is_form:
            out["reactions"] = a.draw_reactions(nodes, scale=scale, gap=gap, min_force=least)
        else:
            out["origin_nodes"] = a.draw_nodes_origin(nodes)
            out["trail_edges"] = a.draw_edges_trail(edges)
            out["deviation_edges"] = a.draw_edges_deviation(edges)
            out["trails"] = a.draw_trails()
        if rng.random() < 0.3:
            # nothing picked: nothing of that kind
            for name in ["draw_nodes_support"] + ([] if is_form else ["draw_nodes_origin", "draw_edges_trail", "draw_edges_deviation"]):
                if getattr(a, name)([]):
                    ctx.fail("{} of an empty selection draws something".format(name), spec=spec)
            ctx.event("nothing_picked")
        if rng.random() < 0.2:
            # drawing again draws the same
            same(ctx, pts(a.draw_nodes(nodes)), pts(out["nodes"]), "nodes, drawn again", spec, 0.0)
            same(ctx, lines(a.draw_edges(edges)), lines(out["edges"]), "edges, drawn again", spec, 0.0)
    if gap:
        ctx.event("gaps")
    tol = 1e-12 * (1 + max(np.max(np.abs(p)) for p in at.values()))

    def nodes_like(name, members):
        keys = [n for n in pick_n if n in members]
        if nodes is None:
            same(ctx, sorted(pts(out[name])), sorted(at[n].tolist() for n in keys), name, spec, tol)
        else:
            same(ctx, pts(out[name]), [at[n].tolist() for n in keys], name, spec, tol)
        ctx.event("points", len(keys))
        if not keys:
            ctx.event("empty_selections")

    def edges_like(name, kind):
        keys = [e for e in pick_e if kind is None or kinds[frozenset(e)] == kind]
        want = [at[u].tolist() + at[v].tolist() for u, v in keys]
        if edges is None:
            same(ctx, sorted(lines(out[name])), sorted(want), name, spec, tol)
        else:
            same(ctx, lines(out[name]), want, name, spec, tol)
        ctx.event("lines", len(keys))
        if not keys:
            ctx.event("empty_selections")
    same(ctx, pts(out["nodes"]), [at[n].tolist() for n in pick_n], "nodes", spec, tol)
    nodes_like("support_nodes", supports)
    edges_like("edges", None)
    arrows(ctx, lines(out["loads"]), pick_n, load, at, scale, gap, least, "loads", spec, None)
    ctx.event("load_arrows", len(out["loads"]))
    if is_form:
        arrows(ctx, lines(out["reactions"]), pick_n, {n: reaction[n] if n in supports else np.zeros(3) for n in all_nodes}, at, scale, gap,
               least, "reactions", spec, common.State(d))
        ctx.event("reaction_arrows", len(out["reactions"]))
    else:
        nodes_like("origin_nodes", origins)
        edges_like("trail_edges", "trail")
        edges_like("deviation_edges", "deviation")
        got = [[ghc.xyz(p) for p in t] for t in (out["trails"] or [])]
        want = [[at[n].tolist() for n in t] for t in trails]
        ctx.event("polylines", len(got))
        if sorted(got) != sorted(want):
            ctx.fail("trails are drawn as {} instead of {}".format(got, want), spec=spec)
    if common.topo_text(d) != text:
        ctx.fail("drawing changed the diagram", spec=spec)
    ctx.seen(is_form, via, nodes is None, edges is None, common.spec_signature(spec))
    ctx.sample = common.spec_sample(spec, artist="form" if is_form else "topology", via_component=via,
                                    drawn={k: len(v or []) for k, v in out.items()})
