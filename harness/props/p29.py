"""P29  A 3D viewer shows the diagram."""
import numpy as np

import common
import gen
import view2
from core import Skip
from props import p28

ID = "P29"
QUICK = 4000
THOROUGH = 20000
CHUNK = 4
RULE = ("Random topology and form diagrams (tension, compression, auxiliary and shifted trails, without trails yet) are added to the "
        "real Viewer with random options (selections, sizes, widths, scales, thresholds, labels, what to show), on top of a stand-in "
        "of compas_view2 that records every shape it is given. The monitor pairs the shapes with the diagram: one cylinder per "
        "selected edge between its nodes, as wide as asked or as its force asks, with the colour of its state or type; one arrow per "
        "load and reaction that reaches the threshold, equal to scale x vector and touching its node; the points of the selected nodes "
        "with the colour of their role; the labels that were asked for; nothing that is switched off. The diagram stays as it was. "
        "Distinct = diagram kind x options x structure signature.")
MUST_OBSERVE = ["forms", "topologies", "cylinders", "load_arrows", "reaction_arrows", "points", "node_labels", "edge_labels", "selections",
                "hidden", "scaled_widths", "left_out", "auxiliary_edges", "without_trails", "other_data", "no_viewer", "toggled",
                "second_diagrams", "faint", "many_auxiliary_trails", "exactly_at_threshold", "crowded_supports"]


def rgb(name):
    from compas_cem import COLORS
    return np.array(COLORS[name], dtype=float) / 255.0


def as_rgb(c):
    return np.array([float(x) for x in c], dtype=float)[:3]


def near(a, b):
    return np.max(np.abs(np.asarray(a, dtype=float) - np.asarray(b, dtype=float)))


def case(ctx):
    view2.install()
    from compas_cem.viewers import Viewer
    rng = ctx.rng
    spec, _ = gen.good_spec(rng, max_trails=4, max_len=4)
    if rng.random() < 0.2:
        p28.crowd(ctx, spec)
    is_form = rng.random() < 0.5
    bare = not is_form and rng.random() < 0.15
    aux_edge = set()
    topo = gen.build(spec, trails=not bare)
    if not bare and rng.random() < 0.3:
        from compas_cem.elements import DeviationEdge, Node
        base = list(topo.nodes())
        many = 1 if is_form or rng.random() < 0.7 else int(rng.integers(2, 15))
        ctx.event("many_auxiliary_trails", int(many > 10))
        loose = []
        for i in range(many):
            a = max(topo.nodes()) + 1
            topo.add_node(Node(a, gen.flist(np.array([30.0 + 3.0 * i, 1.0, 2.0]) * spec["gscale"])))
            topo.add_edge(DeviationEdge(a, gen.pick(rng, base), force=1.5 * spec["fscale"]))
            loose.append(a)
        topo.build_trails(auxiliary_trails=True)
        for origin, k in spec["shifts"]:
            topo.shift_trail(origin, k)
        aux_edge = {frozenset(e) for e in topo.edges() if set(e) & set(loose) and not set(e) & set(base)}
        if len(aux_edge) != many:
            ctx.fail("{} auxiliary edges for {} loose nodes".format(len(aux_edge), many), spec=spec)
    if is_form:
        try:
            d = common.engine(gen.pick(rng, ["python", "numpy"]))(topo, tmax=300, eta=1e-6 * spec["gscale"])
        except ValueError:
            raise Skip()  # the extra edge keeps it from settling
        ctx.event("forms")
    else:
        d = topo
        ctx.event("topologies")
    if bare:
        ctx.event("without_trails")
    if rng.random() < 0.3:
        # faint: around the threshold below which nothing is shown
        for names in (["qx", "qy", "qz"], ["rx", "ry", "rz"]) if is_form else (["qx", "qy", "qz"],):
            for n in d.nodes():
                if rng.random() < 0.5 and (names[0] == "qx" or n in d.support_nodes()):
                    v = rng.normal(size=3)
                    d.node_attributes(n, names, gen.flist(v / np.linalg.norm(v) * gen.pick(rng, [8e-4, 1.3e-3, 5e-3, 2e-4])))
        ctx.event("faint")
    exact = None
    if rng.random() < 0.2:
        # exactly at the threshold: shown
        exact = float(gen.pick(rng, [0.25, 1.0, 2.0]))
        for names in (["qx", "qy", "qz"], ["rx", "ry", "rz"]) if is_form else (["qx", "qy", "qz"],):
            for n in d.nodes():
                if rng.random() < 0.5 and (names[0] == "qx" or n in d.support_nodes()):
                    v = [0.0, 0.0, 0.0]
                    v[int(rng.integers(3))] = exact * float(gen.pick(rng, [-1.0, 1.0]))
                    d.node_attributes(n, names, v)
    st = common.State(d)
    text = common.topo_text(d)
    at = st.xyz
    g, f = spec["gscale"], spec["fscale"]
    info = dict(spec=spec)

    kw = {}
    nodes, edges = list(st.nodes), list(st.edges)
    if rng.random() < 0.3:
        nodes = [n for n in nodes if rng.random() < 0.6] or nodes
        nodes = [nodes[i] for i in rng.permutation(len(nodes))] if rng.random() < 0.5 else nodes
        kw["nodes"] = list(nodes)
        ctx.event("selections")
    if rng.random() < 0.3:
        edges = [e for e in edges if rng.random() < 0.6] or edges
        edges = [edges[i] for i in rng.permutation(len(edges))] if rng.random() < 0.5 else edges
        kw["edges"] = list(edges)
        ctx.event("selections")
    shown = {"show_nodes": False, "show_edges": True, "show_loads": True, "show_residuals": True, "show_nodetext": False,
             "show_edgetext": False}
    for name in shown:
        if rng.random() < 0.35:
            shown[name] = kw[name] = bool(rng.random() < 0.6)
            if not shown[name]:
                ctx.event("hidden")
    opts = {"nodesize": 10.0, "loadscale": 1.0, "residualscale": 1.0, "loadtol": 1e-3, "residualtol": 1e-3, "text_size": 30}
    for name, values in (("nodesize", [3.0, 22]), ("loadscale", [0.2, 3]), ("residualscale", [0.5, 2.0]),
                         ("loadtol", [0.5 * f, 2.0 * f, 1, 1e3]), ("residualtol", [0.5 * f, 3.0 * f, 2, 1e4]), ("text_size", [12])):
        if rng.random() < 0.4:
            opts[name] = kw[name] = gen.pick(rng, values)
    if exact:
        for name in ("loadtol", "residualtol"):
            opts[name] = kw[name] = exact
    width = {e: 0.015 for e in edges}
    if rng.random() < 0.6:
        w = gen.pick(rng, [0.2, 1, (0.1, 0.5), [0.3, 0.1], {e: 0.05 + 0.01 * i for i, e in enumerate(edges)}])
        kw["edgewidth"] = w
        if isinstance(w, dict):
            width = dict(w)
        elif isinstance(w, (int, float)):
            width = {e: w for e in edges}
        else:
            ctx.event("scaled_widths")
            size = {e: abs(st.force[e]) for e in edges}
            low, high = min(size.values()), max(size.values())
            for e in edges:
                r = (size[e] - low) / (high - low) if high > low else 1.0
                width[e] = (1 - r) * w[0] + r * w[1]
    ntag = gen.pick(rng, [None, "key", "xyz", "keyxyz", "type", {n: "node {}".format(n) for n in nodes}])
    etag = gen.pick(rng, [None, "key", "force", "length", "forcelength", "type", "state", "forcelengthstate", {e: "e{}".format(e) for e in edges}])
    if ntag is not None:
        kw["nodetext"] = ntag
    if etag is not None:
        kw["edgetext"] = etag

    viewer = Viewer()
    if rng.random() < 0.25:
        # another diagram is in the viewer already
        other = gen.build(gen.good_spec(rng, max_trails=3, max_len=3)[0])
        if rng.random() < 0.5:
            other = common.engine("python")(other, tmax=300, eta=1e-3)
        viewer.add(other, **gen.pick(rng, [{}, {"nodesize": 3.0, "edgewidth": (0.1, 4.0), "show_nodetext": True, "show_edgetext": True},
                                           {"show_loads": False, "show_edges": False, "nodes": list(other.nodes())[:1], "loadscale": 9.0}]))
        ctx.event("second_diagrams")
    first = len(viewer.drawn)
    obj = viewer.add(d, **kw)
    info["options"] = {k: str(v) for k, v in kw.items()}
    if type(obj).__name__ != ("FormDiagramObject" if is_form else "TopologyDiagramObject"):
        ctx.fail("a {} was shown as a {}".format(type(d).__name__, type(obj).__name__), **info)

    from compas.geometry import Cylinder
    cylinders, arrows, texts = [], [], []
    for data, options in viewer.drawn[first + 1:]:
        if isinstance(data, view2.Text):
            texts.append((data, options))
        elif isinstance(data, view2.Collection):
            for item in data.items:
                (cylinders if isinstance(item, Cylinder) else arrows).append((item, as_rgb(options["facecolor"])))
        else:
            ctx.fail("{} was drawn".format(type(data).__name__), **info)

    check_edges(ctx, cylinders, edges if shown["show_edges"] else [], st, at, width, d, spec, aux_edge, is_form, bare, g, info)
    red, blue = rgb("load"), rgb("support_force")
    mine = [a for a, c in arrows if near(c, red) < 1e-3]
    rest = [a for a, c in arrows if near(c, red) >= 1e-3]
    if any(near(c, blue) > 1e-3 for a, c in arrows if near(c, red) >= 1e-3):
        ctx.fail("an arrow has neither the colour of loads nor of reactions", **info)
    check_arrows(ctx, mine, nodes if shown["show_loads"] else [], st.load, at, opts["loadscale"], opts["loadtol"], "load_arrows", None, g, info)
    reaction = {n: st.reaction[n] if n in st.supports else np.zeros(3) for n in st.nodes}
    check_arrows(ctx, rest, nodes if shown["show_residuals"] and is_form else [], reaction, at, opts["residualscale"],
                 opts["residualtol"], "reaction_arrows", st, g, info)

    # points
    positions, colors, elements = obj._points_data()
    if len(positions) != len(nodes) or len(colors) != len(nodes) or [list(e) for e in elements] != [[i] for i in range(len(nodes))]:
        ctx.fail("{} points are shown for {} nodes".format(len(positions), len(nodes)), **info)
    origins = {t[0] for t in d.trails()} if not is_form and not bare else set()
    for n, p, c in zip(nodes, positions, colors):
        if near(p, at[n]) > 1e-9 * (1 + np.max(np.abs(at[n]))):
            ctx.fail("node {} is shown at {} instead of {}".format(n, list(p), at[n]), **info)
        want = rgb("node_support") if n in st.supports else rgb("node_origin") if n in origins else rgb("node_black")
        if near(as_rgb(c), want) > 1e-3:
            ctx.fail("node {} is shown in {} instead of {}".format(n, as_rgb(c), want), **info)
        ctx.event("points")
    if bool(obj.show_nodes) != shown["show_nodes"] or bool(obj.show_edges) != shown["show_edges"]:
        ctx.fail("nodes shown: {}, edges shown: {}, but asked for {}".format(obj.show_nodes, obj.show_edges, shown), **info)
    if float(obj.node_size) != float(opts["nodesize"]):
        ctx.fail("nodes have size {} instead of {}".format(obj.node_size, opts["nodesize"]), **info)
    check_labels(ctx, texts, nodes if shown["show_nodetext"] else [], edges if shown["show_edgetext"] else [], ntag, etag, d, st, at, opts, info)

    # switches do not influence each other
    if rng.random() < 0.3:
        ctx.event("toggled")
        want = [bool(obj.show_nodes), bool(obj.show_edges)]
        for i, name in ((0, "show_nodes"), (1, "show_edges"), (0, "show_nodes")):
            want[i] = not want[i]
            setattr(obj, name, want[i])
            if [bool(obj.show_nodes), bool(obj.show_edges)] != want:
                ctx.fail("{} = {} left nodes, edges at {}, {}".format(name, want[i], obj.show_nodes, obj.show_edges), **info)
    if rng.random() < 0.1:
        # anything else goes to the viewer as it is
        from compas.geometry import Point
        p = Point(1.0, 2.0, 3.0)
        viewer.add(p, color=(1, 0, 0))
        data, options = viewer.drawn[-1]
        if data is not p or options != {"color": (1, 0, 0)}:
            ctx.fail("a point was passed on as {} with {}".format(data, options), **info)
        ctx.event("other_data")
    if rng.random() < 0.1:
        # without a viewer there are points and no shapes
        alone = type(obj)(d)
        if len(alone._points_data()[0]) != len(st.nodes):
            ctx.fail("a diagram object without a viewer has no points", **info)
        ctx.event("no_viewer")
    if common.topo_text(d) != text:
        ctx.fail("showing the diagram changed it", **info)
    ctx.seen(is_form, bare, bool(aux_edge), sorted(k for k in kw), common.spec_signature(spec))
    ctx.sample = common.spec_sample(spec, options=info["options"], shapes=[len(cylinders), len(arrows), len(texts)])


def edge_color(e, st, d, spec, aux_edge, is_form, bare):
    if is_form:
        if abs(st.force[e]) < 1e-12:
            return None
        return rgb("tension" if st.force[e] > 0 else "compression")
    if frozenset(e) in aux_edge:
        return rgb("auxiliary_trail")
    kind = {frozenset(x[:2]): x[2] for x in spec["edges"]}.get(frozenset(e), "deviation")
    if kind == "trail":
        return rgb("edge_trail")
    if bare or d.node_sequence(e[0]) == d.node_sequence(e[1]):
        return rgb("edge_deviation")
    return rgb("edge_deviation_indirect")


def check_edges(ctx, cylinders, edges, st, at, width, d, spec, aux_edge, is_form, bare, g, info):
    left = list(cylinders)
    if len(left) != len(edges):
        ctx.fail("{} cylinders are shown for {} edges".format(len(left), len(edges)), **info)

    def ends(c):
        o, n = np.array(list(c.plane.point), dtype=float), np.array(list(c.plane.normal), dtype=float)
        n = n / np.linalg.norm(n)
        return o - 0.5 * c.height * n, o + 0.5 * c.height * n
    for e in edges:
        a, b = at[e[0]], at[e[1]]
        tol = 1e-7 * (g + np.max(np.abs(a)) + np.max(np.abs(b)))
        dist = []
        for c, _ in left:
            p, q = ends(c)
            dist.append(min(max(near(p, a), near(q, b)), max(near(p, b), near(q, a))))
        i = int(np.argmin(dist))
        want = edge_color(e, st, d, spec, aux_edge, is_form, bare)
        # edges may lie on top of each other
        match = [j for j, (c, color) in enumerate(left) if dist[j] <= tol and (want is None or near(color, want) <= 1e-3)
                 and (width[e] is None or abs(2 * c.radius - width[e]) <= 1e-9)]
        i = match[0] if match else i
        if not dist[i] <= tol:
            ctx.fail("edge {} between {} and {} is not shown".format(e, a, b), **info)
        c, color = left.pop(i)
        if width[e] is not None and abs(2 * c.radius - width[e]) > 1e-9:
            ctx.fail("edge {} is {} wide instead of {}".format(e, 2 * c.radius, width[e]), **info)
        if want is not None and near(color, want) > 1e-3:
            ctx.fail("edge {} is shown in {} instead of {}".format(e, color, want), **info)
        ctx.event("cylinders")
        if frozenset(e) in aux_edge:
            ctx.event("auxiliary_edges")


def check_arrows(ctx, arrows, nodes, vec, at, scale, least, what, state, g, info):
    keys = []
    for n in nodes:
        size = np.linalg.norm(vec[n])
        if size == least and np.count_nonzero(vec[n]) == 1:
            ctx.event("exactly_at_threshold")
            keys.append(n)
        elif abs(size - least) < 1e-9 * least:
            return
        elif size > least:
            keys.append(n)
        else:
            ctx.event("left_out")
    if len(arrows) != len(keys):
        ctx.fail("{}: {} for the nodes {}".format(what, len(arrows), keys), **info)
    left = [(np.array(list(a.position), dtype=float), np.array(list(a.direction), dtype=float)) for a in arrows]
    for n in keys:
        v = scale * vec[n]
        tol = 1e-8 * (g + np.max(np.abs(at[n])) + np.linalg.norm(v))
        hit = None
        for i, (p, w) in enumerate(left):
            tail, tip = near(p, at[n]) <= tol, near(p + w, at[n]) <= tol
            push = False if state is None else common.pushes(state, n)
            if near(w, v) <= tol and (tail or tip if push is None else tip if push else tail):
                hit = i
        if hit is None:
            ctx.fail("{}: none is {} at node {}, which is at {}: {}".format(what, v, n, at[n], left), **info)
        left.pop(hit)
        ctx.event(what)


def check_labels(ctx, texts, nodes, edges, ntag, etag, d, st, at, opts, info):
    if len(texts) != len(nodes) + len(edges):
        ctx.fail("{} labels for {} nodes and {} edges".format(len(texts), len(nodes), len(edges)), **info)
    xyz = lambda n: ",".join("{:.2f}".format(c + 0.0) for c in at[n])
    want = []
    for n in nodes:
        if isinstance(ntag, dict):
            s = ntag[n]
        elif ntag == "xyz":
            s = xyz(n)
        elif ntag == "keyxyz":
            s = "{}\n{}".format(n, xyz(n))
        elif ntag == "type":
            s = str(d.node_attribute(n, "type"))
        else:
            s = str(n)
        want.append(("node_labels", n, s, at[n]))
    for e in edges:
        force, length = "{:.2f}".format(abs(st.force[e])), "{:.2f}".format(abs(st.length[e]))
        trail = d.edge_attribute(e, "type") == "trail"
        if isinstance(etag, dict):
            s = etag[e]
        elif etag == "force":
            s = force
        elif etag == "length":
            s = length
        elif etag == "forcelength":
            s = "f: {}\nl: {}".format(force, length)
        elif etag == "type":
            s = str(d.edge_attribute(e, "type"))
        elif etag in ("state", "forcelengthstate"):
            s = "{:.2f}".format(np.copysign(1.0, st.length[e] if trail else st.force[e]))
            if etag != "state":
                s = "f: {}\nl: {}\ns: {}".format(force, length, s)
        else:
            s = "{}-{}".format(*e)
        want.append(("edge_labels", e, s, 0.5 * (at[e[0]] + at[e[1]])))
    left = list(texts)
    clean = lambda s: s.replace("-0.00", "0.00")
    for kind, key, s, p in want:
        hit = [i for i, (t, o) in enumerate(left) if clean(t.text) == clean(s) and near(list(t.position), p) <= 1e-7 * (1 + np.max(np.abs(p)))]
        if not hit:
            ctx.fail("{} of {} should be {!r} at {}; there are {}".format(
                kind, key, s, p, [(t.text, list(t.position)) for t, o in left][:6]), **info)
        t, o = left.pop(hit[0])
        if t.height != opts["text_size"]:
            ctx.fail("a label has size {} instead of {}".format(t.height, opts["text_size"]), **info)
        ctx.event(kind)
