"""P25  A topology made from the dual of a quad mesh is the mesh, with trails that lead to its supports."""
import numpy as np

import common
import gen
import oracle
from core import Skip

ID = "P25"
QUICK = 8000
THOROUGH = 100000
RULE = ("Quad meshes of random size and geometry (grids and cylinders; polyedges in random order and direction; arbitrary vertex "
        "keys) with supports on one side, two opposite sides, scattered polyedge ends, or none, converted with random trail "
        "length, force and states. The result must have the vertices and coordinates of the mesh, its supports, and one edge per "
        "mesh edge (except edges along a row of supports) with the type, sign and value that the conversion rules give; supported "
        "at one end: a trail all the way; at both: two trails and one central deviation edge. Regular cases are then form-found "
        "and must balance. Distinct = shape x support pattern x options.")
MUST_OBSERVE = ["one_side", "two_sides", "free", "scattered", "closed", "explicit_length", "inherited_length", "both_ends_even",
                "both_ends_odd", "support_rows_skipped", "equilibrium_balanced", "tension_trails", "tension_deviation", "large", "no_force"]


class Mesh(object):
    """The part of a compas_quad CoarseQuadMesh that the conversion uses."""

    def __init__(self, xyz, polyedges):
        self._xyz, self._p, self._ready = xyz, polyedges, False

    def collect_polyedges(self):
        self._ready = True

    def polyedges(self, data=False):
        if not self._ready:
            raise RuntimeError("polyedges were not collected")
        for k, p in enumerate(self._p):
            yield (k, list(p)) if data else k

    def polyedge(self, k):
        return list(self._p[k])

    def vertices(self, data=False):
        for k in self._xyz:
            yield (k, {}) if data else k

    def vertex_coordinates(self, k, axes="xyz"):
        return list(self._xyz[k])

    def number_of_vertices(self):
        return len(self._xyz)


def case(ctx):
    rng = ctx.rng
    rows, cols = int(rng.integers(2, 8)), int(rng.integers(2, 7))   # rows along the trails
    if ctx.index % 40 == 11:
        rows, cols = int(rng.integers(8, 22)), int(rng.integers(7, 16))
        if rng.random() < 0.3:
            rows, cols = int(rng.integers(2, 6)), int(rng.integers(40, 160))
        ctx.event("large")
    closed = bool(rng.random() < 0.3) and cols >= 3
    keys = rng.permutation(rows * cols * 3)[:rows * cols].tolist() if rng.random() < 0.5 else list(range(rows * cols))
    at = lambda i, j: int(keys[i * cols + j])
    step = float(gen.pick(rng, [0.5, 1.0, 7.0, 1e-3, 1e4]))
    xyz = {}
    for i in range(rows):
        for j in range(cols):
            if closed:
                a = 2 * np.pi * j / cols
                p = np.array([step * cols * np.cos(a), step * cols * np.sin(a), step * i])
            else:
                p = np.array([step * j, step * i, 0.3 * step * np.sin(i + j)])
            xyz[at(i, j)] = gen.flist(p + 0.1 * step * rng.normal(size=3))
    along = [[at(i, j) for i in range(rows)] for j in range(cols)]
    across = [[at(i, j) for j in range(cols)] + ([at(i, 0)] if closed else []) for i in range(rows)]
    pattern = gen.pick(rng, ["one_side", "two_sides", "two_sides", "free", "scattered"])
    if pattern == "one_side":
        supports = [at(0, j) for j in range(cols)]
    elif pattern == "two_sides":
        supports = [at(0, j) for j in range(cols)] + [at(rows - 1, j) for j in range(cols)]
    elif pattern == "free":
        supports = []
    else:
        ends = sorted({p[0] for p in along} | {p[-1] for p in along})
        supports = [k for k in ends if rng.random() < 0.4]
    ctx.event(pattern)
    ctx.event("closed", int(closed))
    poly = [p if rng.random() < 0.5 else p[::-1] for p in along + across]
    rng.shuffle(poly) if rng.random() < 0.5 else None
    poly = [list(map(int, p)) for p in poly]

    length = gen.pick(rng, [None, None, float(rng.uniform(0.1, 5.0)), 2, 1e-4, 1e-9, 3e5])
    tstate, dstate = int(gen.pick(rng, [-1, -1, 1])), int(gen.pick(rng, [-1, -1, 1]))
    force = float(rng.uniform(0.1, 4.0)) if rng.random() < 0.8 else gen.pick(rng, [3, 1e-7, 1e-3, 1e6, 0.0, 0])
    kw = {}
    if length is not None or rng.random() < 0.5:
        kw["trail_length"] = length
    if tstate != -1 or rng.random() < 0.5:
        kw["trail_state"] = tstate
    if dstate != -1 or rng.random() < 0.5:
        kw["deviation_state"] = dstate
    if rng.random() < 0.7:
        kw["deviation_force"] = force
    else:
        force = 1.0
    ctx.event("explicit_length" if length else "inherited_length")

    # what the rules say: per edge, the kinds that are acceptable
    S = set(supports)
    want, pairs = {}, []
    for p in poly:
        es = [frozenset(e) for e in zip(p[:-1], p[1:])]
        if p[0] == p[-1] or (p[0] not in S and p[-1] not in S):
            for e in es:
                want[e] = "deviation"
        elif p[0] in S and p[-1] in S:
            if p[1] in S or p[-2] in S:
                if p[1] in S and p[-2] in S:
                    ctx.event("support_rows_skipped")
                    for e in es:
                        want[e] = None
                else:
                    raise Skip()   # supports inside a polyedge
                continue
            m = len(es)
            centre = [es[m // 2]] if m % 2 else [es[m // 2 - 1], es[m // 2]]
            ctx.event("both_ends_even" if m % 2 else "both_ends_odd")
            for e in es:
                want[e] = "trail" if e not in centre or len(centre) == 1 and e != centre[0] else "either"
            if len(centre) == 1:
                want[centre[0]] = "deviation"
            pairs.append((centre, es))
        else:
            for e in es:
                want[e] = "trail"
    info = dict(polyedges=poly, supports=supports, kw=kw, xyz=xyz)
    from compas_cem.diagrams import TopologyDiagram
    sup_in = list(supports)
    topo = TopologyDiagram.from_dualquadmesh(Mesh(xyz, poly), gen.pick(rng, [sup_in, tuple(sup_in), set(sup_in)]), **kw)
    if type(topo) is not TopologyDiagram:
        ctx.fail("the result is a {}".format(type(topo).__name__), **info)
    if set(topo.nodes()) != set(xyz):
        ctx.fail("the nodes are {} and the vertices {}".format(sorted(topo.nodes()), sorted(xyz)), **info)
    for k, p in xyz.items():
        ctx.event("vertices_checked")
        if not np.max(np.abs(np.array(topo.node_coordinates(k), dtype=float) - np.array(p))) <= 1e-12 * (1 + np.max(np.abs(p))):
            ctx.fail("vertex {} moved from {} to {}".format(k, p, topo.node_coordinates(k)), **info)
    if set(topo.support_nodes()) != S:
        ctx.fail("the supports are {} instead of {}".format(sorted(topo.support_nodes()), sorted(S)), **info)
    have = {frozenset(e): tuple(e) for e in topo.edges()}
    for e in have:
        if e not in want or want[e] is None:
            ctx.fail("edge {} is not in the mesh or lies along supports".format(set(e)), **info)
    kinds = {}
    for e, kind in want.items():
        if kind is None:
            continue
        if e not in have:
            ctx.fail("mesh edge {} is missing".format(set(e)), **info)
        ed = have[e]
        is_t, is_d = bool(topo.is_trail_edge(ed)), bool(topo.is_deviation_edge(ed))
        ctx.event("edges_checked")
        if is_t == is_d:
            ctx.fail("edge {} is trail: {}, deviation: {}".format(ed, is_t, is_d), **info)
        kinds[e] = "trail" if is_t else "deviation"
        if kind != "either" and kinds[e] != kind:
            ctx.fail("edge {} is a {} edge and should be a {} edge".format(ed, kinds[e], kind), **info)
        if is_t:
            u, v = ed
            want_l = length if length else float(np.linalg.norm(np.array(xyz[u]) - np.array(xyz[v])))
            got = float(topo.edge_length_2(ed))
            if not abs(got - tstate * want_l) <= 1e-12 * (1 + want_l):
                ctx.fail("trail edge {} has length {} instead of {}".format(ed, got, tstate * want_l), **info)
            ctx.event("tension_trails", int(tstate > 0))
        else:
            got = float(topo.edge_force(ed))
            if not abs(got - dstate * force) <= 1e-12 * force:
                ctx.fail("deviation edge {} has force {} instead of {}".format(ed, got, dstate * force), **info)
            ctx.event("tension_deviation", int(dstate > 0))
            ctx.event("no_force", int(force == 0))
    for centre, es in pairs:
        if sum(kinds[e] == "deviation" for e in centre) != 1:
            ctx.fail("a polyedge between two supports must have one central deviation edge: {}".format(
                [(sorted(e), kinds[e]) for e in es]), **info)

    # regular cases work end to end
    if pattern in ("one_side", "two_sides") and (pattern == "one_side" or rows >= 4) and not (pattern == "one_side" and rows < 2):
        from compas_cem.loads import NodeLoad
        for k in xyz:
            topo.add_load(NodeLoad(k, gen.flist(rng.normal(size=3) * 0.3 + np.array([0, 0, -1.0]))))
        topo.build_trails()
        n = cols * (2 if pattern == "two_sides" else 1)
        if topo.number_of_trails() != n:
            ctx.fail("{} trails instead of {}".format(topo.number_of_trails(), n), **info)
        covered = sorted(k for t in topo.trails() for k in t)
        if covered != sorted(xyz):
            ctx.fail("the trails do not cover every vertex once", **info)
        for t in topo.trails():
            if t[-1] not in S or any(k in S for k in t[:-1]):
                ctx.fail("trail {} does not end at its only support".format(t), **info)
        st = common.State(common.engine(gen.pick(rng, ["python", "numpy"]))(topo, tmax=300, eta=1e-9 * max(step, length or 0.0, 1.0)))
        res = oracle.nodal_residuals(st.nodes, st.edges, st.force, st.xyz, st.load, st.reaction)
        fm = max(abs(f) for f in st.force.values()) + 1.0
        short = min(float(np.linalg.norm(st.xyz[u] - st.xyz[v])) for u, v in st.edges)
        if short > 1e-3 * step:
            worst = max(float(np.linalg.norm(v)) for v in res.values())
            ctx.event("equilibrium_balanced")
            if not worst <= 1e-6 * fm:
                ctx.fail("a node of the form is out of balance by {}".format(worst), **info)
    ctx.seen(rows, cols, closed, pattern, len(supports), length is None, tstate, dstate, tuple(sorted(kw)))
    ctx.sample = {"rows": rows, "cols": cols, "closed": closed, "supports": pattern, "kw": kw}
