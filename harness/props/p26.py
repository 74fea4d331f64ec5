"""P26  A plot shows the diagram: positions, states, magnitudes, supports, loads, reactions and labels."""
import re

import numpy as np

import common
import gen
import oracle
from core import Skip

ID = "P26"
QUICK = 2500
THOROUGH = 8000
CHUNK = 4
RULE = ("Random topology and form diagrams (with zero, tiny and large forces, auxiliary trails, shifted trails) are added to a "
        "Plotter with random options (selections, sizes, widths, colour modes, tolerances, scales, labels); a monitor reads the "
        "matplotlib canvas: circles, segments, arrows, crosses and texts must be those of the diagram -- where the nodes are, "
        "coloured by support/origin/sequence and by state or type, as wide as the force asks, dashed for deviation edges, arrows "
        "equal to scale x load or reaction on the right side of the node, labels with the right numbers. Distinct = diagram kind "
        "x options x structure signature.")
MUST_OBSERVE = ["forms", "topologies", "circles", "segments", "load_arrows", "reaction_arrows", "crosses", "node_labels",
                "edge_labels", "scaled_widths", "selections", "zero_force_edges", "auxiliary_trail_edges", "sequence_colors",
                "type_colors", "shifted_reactions", "below_tolerance", "hidden",
                "second_diagrams", "without_trails", "faint", "own_sizes", "exactly_at_tolerance", "redrawn",
                "sequence_colors_of_selections", "many_auxiliary_trails",
                "shuffled_selections", "weak_edges", "crowded_supports", "faint_crosses"]


def rgb(name):
    from compas_cem import COLORS
    return np.array(COLORS[name], dtype=float) / 255.0


def same_color(a, b):
    return b is None or np.max(np.abs(np.array(a)[:3] - np.array(b)[:3])) < 1e-3


class Canvas(object):
    def __init__(self, plotter, seen):
        from matplotlib.collections import LineCollection, PatchCollection
        from matplotlib.lines import Line2D
        from matplotlib.patches import FancyArrowPatch
        kids = [c for c in plotter.axes.get_children() if id(c) not in seen]
        self.circles, self.segments, self.arrows, self.lines = [], [], [], []
        for c in kids:
            if isinstance(c, LineCollection):
                segs, cols, ws, ls = c.get_segments(), c.get_edgecolor(), c.get_linewidths(), c.get_linestyles()
                for i, s in enumerate(segs):
                    self.segments.append((np.array(s), cols[i % len(cols)], ws[i % len(ws)], ls[i % len(ls)]))
            elif isinstance(c, PatchCollection):
                cols = c.get_facecolor()
                for i, p in enumerate(c.get_paths()):
                    e = p.get_extents()
                    self.circles.append((np.array([(e.x0 + e.x1) / 2, (e.y0 + e.y1) / 2]), (e.x1 - e.x0) / 2, cols[i % len(cols)]))
            elif isinstance(c, FancyArrowPatch):
                a, b = c._posA_posB
                self.arrows.append((np.array(a, dtype=float), np.array(b, dtype=float), c.get_facecolor()))
            elif isinstance(c, Line2D):
                self.lines.append(np.array(c.get_xydata(), dtype=float))
        self.texts = [(np.array(t.get_position(), dtype=float), t.get_text()) for t in plotter.axes.texts if id(t) not in seen]


def match(ctx, items, want, what, dist, tol, info):
    """Pair what is on the canvas with what should be there, one to one."""
    left = list(items)
    for label, w in want:
        if not left:
            ctx.fail("{} {} is not drawn".format(what, label), **info)
        best = min(range(len(left)), key=lambda i: dist(left[i], w))
        d = dist(left[best], w)
        if not d <= tol:
            ctx.fail("{} {} is not drawn as {}; the closest is {}".format(what, label, w, left[best]), **info)
        left.pop(best)
        ctx.event(what)
    if left:
        ctx.fail("{} more {} than there should be: {}".format(len(left), what, left[0]), **info)


def numbers(text):
    return [float(x) for x in re.findall(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?", text)]


def case(ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from compas_cem.plotters import Plotter
    rng = ctx.rng
    spec, ref = gen.good_spec(rng, max_trails=4, max_len=4)
    kind = gen.pick(rng, ["form", "form", "topology"])
    aux = kind == "topology" and rng.random() < 0.3
    bare = kind == "topology" and not aux and rng.random() < 0.15
    if rng.random() < 0.4:
        # one edge is much stronger than the others that meet at a support
        many = [n for n in spec["supports"] if sum(n in e[:2] for e in spec["edges"]) > 2]
        if not many:
            n = gen.pick(rng, spec["supports"])
            linked = {m for e in spec["edges"] if n in e[:2] for m in e[:2]}
            for m in [m for m, _ in spec["nodes"] if m not in linked][:int(rng.integers(2, 6))]:
                spec["edges"].append([n, m, "deviation", float(rng.uniform(-0.3, 0.3) * spec["fscale"]), None])
            ref = oracle.solve(spec, max_iter=90)
            if not gen.spec_ok(spec, ref):
                raise Skip()
            ctx.event("crowded_supports")
    topo = gen.build(spec, trails=not bare)
    ctx.event("without_trails", int(bare))
    if kind == "topology" and rng.random() < 0.2:
        topo.node_attributes(gen.pick(rng, list(topo.nodes())), ["qx", "qy", "qz"], [0.0, float(gen.pick(rng, [1e-4, 1e-5, 2e-6, 5e-7])), 0.0])
        ctx.event("faint_crosses")
    if aux:
        from compas_cem.elements import DeviationEdge, Node
        many = int(rng.integers(11, 16)) if rng.random() < 0.2 else 1
        ctx.event("many_auxiliary_trails", int(many > 10))
        base = list(topo.nodes())
        for _ in range(many):
            a = max(topo.nodes()) + 1
            topo.add_node(Node(a, gen.flist(rng.normal(size=3) * spec["gscale"])))
            topo.add_edge(DeviationEdge(a, gen.pick(rng, base), force=1.5))
        topo.build_trails(auxiliary_trails=True)
    plotter = Plotter()
    try:
        if rng.random() < 0.25:
            # another diagram is in the plot already
            other = gen.build(gen.good_spec(rng, max_trails=3, max_len=3)[0])
            if rng.random() < 0.5:
                other = common.engine("python")(other, tmax=300, eta=1e-3)
            plotter.add(other, **gen.pick(rng, [{}, {"nodesize": 3.0, "edgewidth": 4.0, "show_nodetext": True, "show_edgetext": True},
                                                {"show_loads": False, "nodes": list(other.nodes())[:1]}]))
            ctx.event("second_diagrams")
        seen = {id(c) for c in plotter.axes.get_children()} | {id(t) for t in plotter.axes.texts}
        (form_case if kind == "form" else topology_case)(ctx, plotter, seen, topo, spec, ref)
    finally:
        plt.close("all")


def select(ctx, diagram, kw):
    rng = ctx.rng
    nodes, edges = list(diagram.nodes()), [tuple(e) for e in diagram.edges()]
    if rng.random() < 0.3:
        nodes = [n for n in nodes if rng.random() < 0.6] or nodes
        if rng.random() < 0.5:
            nodes = [nodes[i] for i in rng.permutation(len(nodes))]
        kw["nodes"] = list(nodes)
        ctx.event("selections")
    if rng.random() < 0.3:
        edges = [e for e in edges if rng.random() < 0.6] or edges
        if rng.random() < 0.5:
            # in an order of its own
            edges = [edges[i] for i in rng.permutation(len(edges))]
            ctx.event("shuffled_selections")
        kw["edges"] = list(edges)
        ctx.event("selections")
    return nodes, edges


def common_options(ctx, kw, keys):
    rng = ctx.rng
    n = float(len(keys))
    size = {k: 0.1 / n for k in keys}
    if rng.random() < 0.6:
        kw["nodesize"] = float(rng.uniform(0.05, 2.0))
        size = {k: kw["nodesize"] / n for k in keys}
    for name in ("show_nodes", "show_edges", "show_loads"):
        if rng.random() < 0.1:
            kw[name] = False
            ctx.event("hidden")
    return size


def show(ctx, plotter, diagram, kw, size):
    if ctx.rng.random() < 0.8:
        plotter.add(diagram, **kw)
        return
    # drawn again: once on the canvas (arrows and crosses are objects of their own)
    first = dict(kw, show_loads=False)
    if type(diagram).__name__ == "FormDiagram":
        first["show_reactions"] = False
    artist = plotter.add(diagram, **first)
    artist.show_loads = kw.get("show_loads", True)
    artist.show_reactions = kw.get("show_reactions", True)
    if ctx.rng.random() < 0.7:
        # each node its own size
        own = {k: float(ctx.rng.uniform(0.05, 2.0)) for k in size}
        artist.node_size = dict(own)
        size.update({k: v / len(size) for k, v in own.items()})
        ctx.event("own_sizes")
    artist.draw()
    ctx.event("redrawn")


def whole_colors(topo, kw, xyz, g):
    """The colours of the nodes when no selection is made."""
    from compas_cem.plotters import Plotter
    plotter = Plotter()
    seen = {id(c) for c in plotter.axes.get_children()}
    plotter.add(topo, **{k: v for k, v in kw.items() if k not in ("nodes", "edges")})
    out = {}
    for c in Canvas(plotter, seen).circles:
        near = [n for n in xyz if np.max(np.abs(xyz[n][:2] - c[0])) < 1e-6 * g]
        if len(near) == 1:
            out[near[0]] = np.array(c[2][:3])
    return out


def form_case(ctx, plotter, seen, topo, spec, ref):
    rng = ctx.rng
    form = common.engine(gen.pick(rng, ["python", "numpy"]))(topo, tmax=300, eta=1e-9 * spec["gscale"])
    if rng.random() < 0.3:
        form.edge_attribute(gen.pick(rng, [tuple(e) for e in form.edges()]), "force", 0.0)
        ctx.event("zero_force_edges")
    if rng.random() < 0.2:
        form.edge_attribute(gen.pick(rng, [tuple(e) for e in form.edges()]), "force", float(gen.pick(rng, [1e-4, -1e-7, 1e-9, -1e-12])))
        ctx.event("weak_edges")
    if rng.random() < 0.15:
        for e in form.edges():
            form.edge_attribute(e, "force", -2.0)   # all alike
    if rng.random() < 0.3:
        # faint: around the threshold below which nothing is drawn
        for names in (["qx", "qy", "qz"], ["rx", "ry", "rz"]):
            for n in form.nodes():
                if rng.random() < 0.5 and (names[0] == "qx" or n in form.support_nodes()):
                    v = rng.normal(size=3)
                    form.node_attributes(n, names, gen.flist(v / np.linalg.norm(v) * gen.pick(rng, [8e-4, 1.3e-3, 5e-3, 2e-4])))
        ctx.event("faint")
    exact = None
    if rng.random() < 0.2:
        # exactly at the threshold: still drawn
        exact = float(gen.pick(rng, [2.0, 0.5, 1.0]))
        for names in (["qx", "qy", "qz"], ["rx", "ry", "rz"]):
            for n in form.nodes():
                if rng.random() < 0.5 and (names[0] == "qx" or n in form.support_nodes()):
                    v = [0.0, 0.0, 0.0]
                    v[int(rng.integers(3))] = exact * float(gen.pick(rng, [-1.0, 1.0]))
                    form.node_attributes(n, names, v)
                    ctx.event("exactly_at_tolerance")
    st = common.State(form)
    kw = {}
    nodes, edges = select(ctx, form, kw)
    size = common_options(ctx, kw, list(form.nodes()))
    if rng.random() < 0.1:
        kw["show_reactions"] = False
        ctx.event("hidden")
    width = 1.0
    if rng.random() < 0.6:
        width = kw["edgewidth"] = gen.pick(rng, [2.5, 3, (1.0, 4.0), (0.2, 0.3), (3.0, 1.0), [0.5, 5.0]])
    lscale = rscale = 1.0
    ltol = rtol = 1e-3
    if rng.random() < 0.4:
        lscale = kw["loadscale"] = float(rng.uniform(0.1, 3.0))
    if rng.random() < 0.4:
        rscale = kw["reactionscale"] = float(rng.uniform(0.1, 3.0))
    if rng.random() < 0.4:
        ltol = kw["loadtol"] = float(spec["fscale"] * rng.uniform(0.0, 1.0))
    if rng.random() < 0.4:
        rtol = kw["reactiontol"] = float(spec["fscale"] * rng.uniform(0.0, 2.0))
    if exact:
        ltol = rtol = kw["loadtol"] = kw["reactiontol"] = exact
    etag, ntag = gen.pick(rng, [None, "force", "length", "forcelength"]), gen.pick(rng, [None, "xyz", "keyxyz"])
    if rng.random() < 0.5:
        kw.update(show_edgetext=True, edgetext=etag)
    if rng.random() < 0.5:
        kw.update(show_nodetext=True, nodetext=ntag)
    info = dict(spec=spec, options=kw)
    text = common.topo_text(form)
    show(ctx, plotter, form, kw, size)
    if common.topo_text(form) != text:
        ctx.fail("drawing changed the form", **info)
    can = Canvas(plotter, seen)
    g = max(spec["gscale"], float(max(np.max(np.abs(p)) for p in st.xyz.values())))
    ctx.event("forms")

    # nodes
    want = [(n, (st.xyz[n][:2], rgb("node_support") if n in st.supports else rgb("node"), size[n])) for n in nodes] if kw.get("show_nodes", True) else []
    match(ctx, can.circles, want, "circles",
          lambda c, w: np.max(np.abs(c[0] - w[0])) / g + abs(c[1] - w[2]) / max(w[2], g * 1e-3) + (0 if same_color(c[2], w[1]) else 10), 1e-6, info)
    # edges
    forces = [abs(st.force[e]) for e in edges]
    lo, hi = min(forces), max(forces)

    def width_of(e):
        if not isinstance(width, (tuple, list)):
            return width
        ctx.event("scaled_widths")
        r = (abs(st.force[e]) - lo) / (hi - lo) if hi > lo else 1.0
        return (1 - r) * width[0] + r * width[1]
    want = []
    for e in edges if kw.get("show_edges", True) else []:
        f = st.force[e]
        col = rgb("edge") if f == 0.0 else rgb("tension") if f > 0 else rgb("compression")
        want.append((e, (np.array([st.xyz[e[0]][:2], st.xyz[e[1]][:2]]), col, width_of(e))))
    match(ctx, can.segments, want, "segments",
          lambda s, w: min(np.max(np.abs(s[0] - w[0])), np.max(np.abs(s[0][::-1] - w[0]))) / g + (0 if same_color(s[1], w[1]) else 10) +
          abs(s[2] - w[2]), 1e-6, info)
    # arrows
    want = []
    if kw.get("show_loads", True):
        for n in nodes:
            q = st.load[n]
            ln = float(np.linalg.norm(q))
            if abs(ln - ltol) <= 1e-9 * (ln + ltol) and ln > 0 and ln != exact:
                raise Skip()
            if ln < ltol or ln == 0.0:
                ctx.event("below_tolerance")
                continue
            a = st.xyz[n] + q / ln * size[n]
            want.append(("load at {}".format(n), (a[:2], (a + q * lscale)[:2], rgb("load"))))
            ctx.event("load_arrows")
    if kw.get("show_reactions", True):
        for n in nodes:
            q = st.reaction[n]
            ln = float(np.linalg.norm(q))
            if abs(ln - rtol) <= 1e-9 * (ln + rtol) and ln > 0 and ln != exact:
                raise Skip()
            if ln < rtol or ln == 0.0:
                ctx.event("below_tolerance")
                continue
            push = common.pushes(st, n)
            if push is None:
                raise Skip()   # as much tension as compression
            u = q / ln
            if push:   # pushes against the node: the tip touches it
                b = st.xyz[n] - u * size[n]
                a = b - q * rscale
                ctx.event("shifted_reactions")
            else:
                a = st.xyz[n] + u * size[n]
                b = a + q * rscale
            want.append(("reaction at {}".format(n), (a[:2], b[:2], rgb("support_force"))))
            ctx.event("reaction_arrows")
    fm = g + max([1e-12] + [float(np.max(np.abs(w[1] - w[0]))) for _, w in want])
    match(ctx, can.arrows, want, "arrows",
          lambda s, w: (np.max(np.abs(s[0] - w[0])) + np.max(np.abs(s[1] - w[1]))) / fm + (0 if same_color(s[2], w[2]) else 10), 1e-6, info)
    # labels
    want = []
    if kw.get("show_nodetext"):
        for n in nodes:
            want.append(("label of node {}".format(n), (st.xyz[n][:2], node_label(ntag, n, st.xyz[n]))))
            ctx.event("node_labels")
    if kw.get("show_edgetext"):
        for e in edges:
            mid = (st.xyz[e[0]] + st.xyz[e[1]])[:2] / 2
            ln = float(np.linalg.norm(st.xyz[e[0]] - st.xyz[e[1]]))
            lab = {None: None, "force": [st.force[e]], "length": [ln], "forcelength": [st.force[e], ln]}[etag]
            want.append(("label of edge {}".format(e), (mid, "{}-{}".format(*e) if lab is None else lab)))
            ctx.event("edge_labels")
    texts(ctx, can, want, g, info)
    ctx.seen("form", tuple(sorted((k, str(v) if not isinstance(v, (float, list)) else 0) for k, v in kw.items())), common.spec_signature(spec))
    ctx.sample = {"kind": "form", "options": {k: v for k, v in kw.items() if k not in ("nodes", "edges")}, "texts": [t for _, t in can.texts][:4]}


def node_label(tag, n, p, extra=None):
    if tag is None:
        return [float(n)]
    if tag == "xyz":
        return list(p)
    if tag == "keyxyz":
        return [float(n)] + list(p)
    return extra


def texts(ctx, can, want, g, info):
    def dist(t, w):
        d = np.max(np.abs(t[0] - w[0])) / g
        if isinstance(w[1], str):
            return d + (0 if t[1] == w[1] else 10)
        nums = numbers(t[1])
        if len(nums) != len(w[1]):
            return 10 + d
        # two decimals
        return d + sum(0 if abs(a - b) <= 0.0051 + 1e-9 * abs(b) else 10 for a, b in zip(nums, w[1]))
    match(ctx, can.texts, want, "texts", dist, 1e-6, info)


def topology_case(ctx, plotter, seen, topo, spec, ref):
    rng = ctx.rng
    kw = {}
    nodes, edges = select(ctx, topo, kw)
    size = common_options(ctx, kw, list(topo.nodes()))
    ncol, ecol = gen.pick(rng, [None, "type", "sequence"]), gen.pick(rng, [None, "state", "type"])
    if ncol == "sequence" and not topo.has_trails():
        ncol = None
    if ncol:
        kw["nodecolor"] = ncol
    if ecol:
        kw["edgecolor"] = ecol
    width = 1.0
    if rng.random() < 0.5:
        width = kw["edgewidth"] = 2.25
    ntag = gen.pick(rng, [None, "xyz", "keyxyz", "type", "sequence", "keysequence"])
    if "sequence" in str(ntag) and not topo.has_trails():
        ntag = None
    etag = gen.pick(rng, [None, "force", "length", "state", "forcelength", "forcelengthstate", "type"])
    if rng.random() < 0.5:
        kw.update(show_nodetext=True, nodetext=ntag)
    if rng.random() < 0.5:
        kw.update(show_edgetext=True, edgetext=etag)
    info = dict(spec=spec, options=kw)
    xyz = {n: np.array(topo.node_coordinates(n), dtype=float) for n in topo.nodes()}
    supports = set(topo.support_nodes())
    bare = not topo.has_trails()
    origins = {t[0] for t in topo.trails()} if not bare else set()
    seq = {n: topo.node_sequence(n) if not bare else 0 for n in topo.nodes()}
    load = {n: np.array(topo.node_load(n), dtype=float) for n in topo.nodes()}
    auxe = set() if bare else {frozenset(p) for t in topo.auxiliary_trails() for p in zip(list(t)[:-1], list(t)[1:])}
    text = common.topo_text(topo)
    show(ctx, plotter, topo, kw, size)
    if common.topo_text(topo) != text:
        ctx.fail("drawing changed the topology", **info)
    can = Canvas(plotter, seen)
    g = max(spec["gscale"], float(max(np.max(np.abs(p)) for p in xyz.values())))
    ctx.event("topologies")

    if kw.get("show_nodes", True):
        if ncol == "sequence":
            # a ramp: same sequence same colour, different sequence different colour
            got = {}
            match(ctx, can.circles, [(n, (xyz[n][:2], None, size[n])) for n in nodes], "circles",
                  lambda c, w: np.max(np.abs(c[0] - w[0])) / g + abs(c[1] - w[2]) / max(w[2], g * 1e-3), 1e-6, info)
            for c in can.circles:
                near = [n for n in nodes if np.max(np.abs(xyz[n][:2] - c[0])) < 1e-6 * g]
                if len(near) == 1:
                    got[near[0]] = np.array(c[2][:3])
            for a in got:
                for b in got:
                    d = np.max(np.abs(got[a] - got[b]))
                    if seq[a] == seq[b] and d > 1e-6 or seq[a] != seq[b] and d < 1e-6:
                        ctx.fail("nodes {} and {} have sequences {} and {} and colours {} and {}".format(
                            a, b, seq[a], seq[b], got[a], got[b]), **info)
            ctx.event("sequence_colors")
            # the colour of a sequence is that of the whole plot
            if "nodes" in kw and got:
                whole = whole_colors(topo, kw, xyz, g)
                for n, col in got.items():
                    if whole.get(n) is not None and np.max(np.abs(col - whole[n])) > 1e-6:
                        ctx.fail("node {} of sequence {} has colour {} in a selection and {} in the whole plot".format(
                            n, seq[n], col, whole[n]), **info)
                ctx.event("sequence_colors_of_selections")
        else:
            def color(n):
                # a node that starts a trail and is held cannot be both
                return rgb("node_support") if n in supports else rgb("node_origin") if n in origins else rgb("node")
            match(ctx, can.circles, [(n, (xyz[n][:2], color(n), size[n])) for n in nodes], "circles",
                  lambda c, w: np.max(np.abs(c[0] - w[0])) / g + abs(c[1] - w[2]) / max(w[2], g * 1e-3) + (0 if same_color(c[2], w[1]) else 10),
                  1e-6, info)
    elif can.circles:
        ctx.fail("nodes are drawn although they are hidden", **info)

    want = []
    for e in edges if kw.get("show_edges", True) else []:
        trail = bool(topo.is_trail_edge(e))
        val = float(topo.edge_length_2(e) if trail else topo.edge_force(e))
        if frozenset(e) in auxe:
            col = rgb("auxiliary_trail")
            ctx.event("auxiliary_trail_edges")
        elif ecol == "type":
            ctx.event("type_colors")
            direct = seq[e[0]] == seq[e[1]]
            col = rgb("edge_trail") if trail else rgb("edge_deviation") if direct else rgb("edge_deviation_indirect")
        else:
            # the state of an edge without force is not defined
            col = rgb("tension") if val > 0 else rgb("compression") if val < 0 else None
        want.append((e, (np.array([xyz[e[0]][:2], xyz[e[1]][:2]]), col, width, trail)))
    match(ctx, can.segments, want, "segments",
          lambda s, w: min(np.max(np.abs(s[0] - w[0])), np.max(np.abs(s[0][::-1] - w[0]))) / g + (0 if same_color(s[1], w[1]) else 10) +
          abs(s[2] - w[2]) + (0 if (s[3][1] is None) == w[3] else 10), 1e-6, info)

    # crosses
    want = []
    if kw.get("show_loads", True):
        for n in nodes:
            if np.linalg.norm(load[n]) > 1e-6:
                s = size[n] * np.sqrt(0.5)
                for sg in (1, -1):
                    d = np.array([s, sg * s])
                    want.append(("cross at {}".format(n), np.array([xyz[n][:2] - d, xyz[n][:2] + d])))
                ctx.event("crosses")
    match(ctx, can.lines, want, "cross_lines",
          lambda s, w: min(np.max(np.abs(s - w)), np.max(np.abs(s[::-1] - w))) / g if s.shape == w.shape else 10, 1e-6, info)

    want = []
    if kw.get("show_nodetext"):
        for n in nodes:
            k = "_origin" if n in origins and n not in supports else "support" if n in supports else "None"
            lab = {"type": k, "sequence": [float(seq[n])], "keysequence": [float(n), float(seq[n])]}.get(ntag)
            if ntag == "type":
                lab = str(topo.node_attribute(n, "type"))
            want.append(("label of node {}".format(n), (xyz[n][:2], node_label(ntag, n, xyz[n], lab))))
            ctx.event("node_labels")
    if kw.get("show_edgetext"):
        for e in edges:
            trail = bool(topo.is_trail_edge(e))
            f, ln = abs(float(topo.edge_force(e))), abs(float(topo.edge_length_2(e)))
            sg = float(np.sign(topo.edge_length_2(e) if trail else topo.edge_force(e)))
            if sg == 0.0 and etag in ("state", "forcelengthstate"):
                raise Skip()
            lab = {None: "{}-{}".format(*e), "force": [f], "length": [ln], "state": [sg], "forcelength": [f, ln],
                   "forcelengthstate": [f, ln, sg], "type": "trail" if trail else "deviation"}[etag]
            want.append(("label of edge {}".format(e), ((xyz[e[0]] + xyz[e[1]])[:2] / 2, lab)))
            ctx.event("edge_labels")
    texts(ctx, can, want, g, info)
    ctx.seen("topology", tuple(sorted((k, str(v) if not isinstance(v, (float, list)) else 0) for k, v in kw.items())), bool(auxe),
             common.spec_signature(spec))
    ctx.sample = {"kind": "topology", "options": {k: v for k, v in kw.items() if k not in ("nodes", "edges")}, "texts": [t for _, t in can.texts][:4]}
