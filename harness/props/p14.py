"""P14  A location finds the node that is there, and only that one."""
import numpy as np

import common
import gen
from core import Skip, Violation

ID = "P14"
QUICK = 2000
THOROUGH = 30000
RULE = ("Histories of 5-40 operations on a diagram (add nodes with and without keys, add edges between locations that do "
        "or do not exist yet, move by any of the node methods, delete nodes, copy, data and JSON round trips, loads and "
        "supports by location) several tolerances, tolerances refined on the way, nodes that share a place and part again; plus "
        "form diagrams and optimizer runs, whose nodes move. After each operation every node is looked up at its place "
        "(and within tolerance of it), vacated and never used places are looked up too. Distinct = history of operations.")
MUST_OBSERVE = ["found", "not_found", "moves", "deletes", "implicit_nodes", "forms", "optimizer_runs", "round_trips",
                "missing_refused", "shared_places", "tolerance_changes", "tolerances_carried"]


class Model(object):
    def __init__(self, rng, digits):
        self.rng = rng
        self.digits = digits
        self.step = 10.0 ** -digits
        self.xyz = {}
        self.vacated = []
        self.loads = {}
        self.supports = set()
        self.edges = {}

    def cell(self, p):
        return tuple(int(round(c / self.step)) for c in p)

    def free_place(self):
        used = {self.cell(p) for p in self.xyz.values()}
        for _ in range(1000):
            if self.rng.random() < 0.3 and self.vacated:
                p = gen.pick(self.rng, self.vacated)
            elif self.rng.random() < 0.3 and self.xyz:
                # a close neighbour, one tolerance away
                q = gen.pick(self.rng, list(self.xyz.values()))
                d = self.rng.integers(-1, 2, size=3)
                p = [float((int(round(c / self.step)) + int(k)) * self.step) for c, k in zip(q, d)]
            else:
                top = int(gen.pick(self.rng, [3000, 3000, 3, 4000000]))
                p = [float(int(self.rng.integers(-top, top)) * self.step) for _ in range(3)]
            p = [float(np.round(c, self.digits)) for c in p]
            if self.rng.random() < 0.1:
                p = [(-0.0 if c == 0.0 else c) for c in p]
            if self.cell(p) not in used:
                return p
        raise Skip()

    def same(self, a, b):
        return a == b or a in self.xyz and b in self.xyz and self.cell(self.xyz[a]) == self.cell(self.xyz[b])

    def near(self, p):
        return [float(c + self.step * self.rng.uniform(-0.3, 0.3)) for c in p]


def check(ctx, d, m, label):
    rng = ctx.rng
    if set(d.nodes()) != set(m.xyz):
        ctx.fail("{}nodes are {} and should be {}".format(label, sorted(d.nodes()), sorted(m.xyz)))
    for k, p in m.xyz.items():
        if [float(c) for c in d.node_coordinates(k)] != [float(c) for c in p] and \
                np.max(np.abs(np.array(d.node_coordinates(k), dtype=float) - np.array(p))) > 1e-12:
            ctx.fail("{}node {} is at {} and should be at {}".format(label, k, d.node_coordinates(k), p))
        for q in (p, m.near(p)):
            form = gen.pick(rng, [list, tuple])
            got = d.node_key(form(q))
            ctx.event("found")
            # nodes may share a place, then it finds any of them
            if got != k and not (got in m.xyz and m.cell(m.xyz[got]) == m.cell(p)):
                ctx.fail("{}location {} of node {} finds {}".format(label, q, k, got))
            if d.node_exists(form(q)) is not True:
                ctx.fail("{}node_exists({}) is not True".format(label, q))
        if d.node_key(k) != k or not d.node_exists(k):
            ctx.fail("{}node {} does not find itself by key".format(label, k))
    used = {m.cell(p) for p in m.xyz.values()}
    empty = [p for p in m.vacated[-12:] if m.cell(p) not in used]
    if m.xyz:
        empty.append(m.free_place())
    for p in empty:
        got = d.node_key(p)
        ctx.event("not_found")
        if got is not None or d.node_exists(p):
            ctx.fail("{}location {} is empty but finds node {}".format(label, p, got))


def history_case(ctx):
    from compas_cem.diagrams import FormDiagram, TopologyDiagram
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    rng = ctx.rng
    cls = gen.pick(rng, [TopologyDiagram, TopologyDiagram, FormDiagram])
    digits = int(gen.pick(rng, [3, 3, 3, 1, 2, 4, 6, 8, 9]))
    m = Model(rng, digits)
    d = cls()
    if digits != 3:
        d.tol = "{}f".format(digits)
    history = []
    if ctx.index % 60 == 17:
        # a large diagram to begin with
        for _ in range(int(rng.integers(150, 600))):
            p = m.free_place()
            m.xyz[d.add_node(Node(xyz=list(p)))] = p
        ctx.event("large_diagrams")
        history.append("large")
    for _ in range(int(rng.integers(5, 41)) if not history else 6):
        op = gen.pick(rng, ["add", "add", "add", "move", "move", "move", "delete", "edge", "edge", "trip", "load",
                            "support", "missing", "share", "refine"])
        if op == "refine":
            # a finer tolerance from now on
            if m.digits >= 8 or rng.random() < 0.5:
                continue
            m.digits += int(rng.integers(1, 3))
            m.step = 10.0 ** -m.digits
            d.tol = "{}f".format(m.digits)
            ctx.event("tolerance_changes")
        elif op == "share":
            # a node moves to or appears at the place of another one
            if len(m.xyz) < 2 or rng.random() < 0.5:
                continue
            p = list(m.xyz[gen.pick(rng, list(m.xyz))])
            if rng.random() < 0.5:
                k = gen.pick(rng, list(m.xyz))
                m.vacated.append(m.xyz[k])
                d.node_xyz(k, p)
            else:
                k = int(rng.integers(5000, 9000))
                if k in m.xyz:
                    continue
                d.add_node(Node(k, p))
            m.xyz[k] = p
            ctx.event("shared_places")
        elif op == "add":
            p = m.free_place()
            how = gen.pick(rng, ["key", "auto", "from_point"])
            if how == "key":
                k = int(rng.integers(-50, 5000))
                if k in m.xyz:
                    continue
                got = d.add_node(Node(k, p))
                if got != k:
                    ctx.fail("add_node(Node({})) returned {}".format(k, got))
            else:
                k = d.add_node(Node(xyz=p) if how == "auto" else Node.from_point(p))
                if k in m.xyz:
                    ctx.fail("add_node reused the key {}".format(k))
            m.xyz[k] = p
        elif op == "move":
            if not m.xyz:
                continue
            k = gen.pick(rng, list(m.xyz))
            p = m.free_place()
            m.vacated.append(m.xyz[k])
            how = gen.pick(rng, ["node_xyz", "update_node_xyz", "add_node"])
            if how == "node_xyz":
                d.node_xyz(k, p)
            elif how == "update_node_xyz":
                d.update_node_xyz(k, p)
            else:
                d.add_node(Node(k, p))
            m.xyz[k] = p
            op = how
            ctx.event("moves")
        elif op == "delete":
            if not m.xyz:
                continue
            k = gen.pick(rng, list(m.xyz))
            d.delete_node(k)
            m.vacated.append(m.xyz.pop(k))
            m.loads.pop(k, None)
            m.supports.discard(k)
            m.edges = {e: v for e, v in m.edges.items() if k not in e}
            ctx.event("deletes")
        elif op == "edge":
            ends, places = [], []
            for i in range(2):
                if m.xyz and rng.random() < 0.6:
                    k = gen.pick(rng, list(m.xyz))
                    ends.append(k)
                    places.append(k if rng.random() < 0.4 else m.near(m.xyz[k]))
                else:
                    ends.append(None)
                    places.append(m.free_place())
            if ends[0] is not None and ends[1] is not None and m.same(ends[0], ends[1]):
                continue
            if ends == [None, None] and m.cell(places[0]) == m.cell(places[1]):
                continue
            a, b = places
            e = d.add_edge(TrailEdge(a, b, length=1.0) if rng.random() < 0.5 else DeviationEdge(a, b, force=1.0))
            for i in range(2):
                if ends[i] is None:
                    if e[i] in m.xyz:
                        ctx.fail("after {}: the edge end at the empty location {} became node {}".format(history, places[i], e[i]))
                    m.xyz[e[i]] = places[i]
                    ctx.event("implicit_nodes")
                elif e[i] != ends[i] and not m.same(e[i], ends[i]):
                    ctx.fail("after {}: the edge end at {} became node {} instead of {}".format(history, places[i], e[i], ends[i]))
            m.edges[frozenset(e)] = True
        elif op == "trip":
            how = gen.pick(rng, ["copy", "data", "json"])
            if how == "copy":
                d = d.copy()
            elif how == "data":
                d = cls.from_data(d.to_data())
            else:
                d = cls.from_jsonstring(d.to_jsonstring())
            op = how
            ctx.event("round_trips")
        elif op in ("load", "support"):
            if not m.xyz or cls is not TopologyDiagram:
                continue
            k = gen.pick(rng, list(m.xyz))
            if any(m.same(k, n) for n in m.xyz if n != k):
                continue
            if op == "load":
                q = gen.flist(rng.normal(size=3))
                d.add_load(NodeLoad.from_point_and_vector(m.near(m.xyz[k]), q))
                m.loads[k] = q
            else:
                d.add_support(NodeSupport.from_point(m.near(m.xyz[k])))
                m.supports.add(k)
        elif op == "missing":
            if cls is not TopologyDiagram or not m.xyz:
                continue
            p = m.free_place()
            for call in (lambda: d.add_load(NodeLoad.from_point_and_vector(p, [1.0, 2.0, 3.0])),
                         lambda: d.add_support(NodeSupport.from_point(p))):
                try:
                    call()
                except Violation:
                    raise
                except Exception:
                    ctx.event("missing_refused")
                else:
                    ctx.fail("after {}: a load or support at the empty location {} was accepted".format(history, p))
        history.append(op)
        check(ctx, d, m, "after {}: ".format(history[-8:]))
        if cls is TopologyDiagram:
            for k in m.xyz:
                if list(d.node_load(k)) != list(m.loads.get(k, [0.0, 0.0, 0.0])):
                    ctx.fail("after {}: node {} has the load {} instead of {}".format(
                        history[-8:], k, d.node_load(k), m.loads.get(k)))
            if set(d.support_nodes()) != m.supports:
                ctx.fail("after {}: supports are {}".format(history[-8:], set(d.support_nodes())))
    ctx.seen(cls.__name__, digits, tuple(history))
    ctx.sample = {"diagram": cls.__name__, "history": history, "tolerance": digits}


def moved_case(ctx):
    """Diagrams whose nodes were moved by form-finding or by the optimizer."""
    rng = ctx.rng
    spec, ref = gen.good_spec(rng, max_trails=4, max_len=4)
    topo = gen.build(spec)
    digits = 3
    if rng.random() < 0.6:
        digits = int(gen.pick(rng, [1, 2, 4, 5, 6, 8]))
        topo.tol = "{}f".format(digits)
        ctx.event("tolerances_carried")
    step = 10.0 ** -digits
    if rng.random() < 0.5:
        name, eng = gen.pick(rng, common.engines())
        form = eng(topo)
        diagrams = [("form of the {} engine".format(name), form)]
        if rng.random() < 0.4:
            diagrams.append(("copy of a form", form.copy()))
        if rng.random() < 0.4:
            diagrams.append(("restored form", type(form).from_jsonstring(form.to_jsonstring())))
        diagrams.append(("topology after form-finding", topo))
        ctx.event("forms")
    else:
        from compas_cem.optimization import (Optimizer, OriginNodeXParameter, OriginNodeYParameter, OriginNodeZParameter,
                                             PointConstraint)
        opt = Optimizer()
        for t in spec["trails"]:
            for cls in (OriginNodeXParameter, OriginNodeYParameter, OriginNodeZParameter):
                opt.add_parameter(cls(t[0], 0.2 * spec["gscale"], 0.2 * spec["gscale"]))
        for t in spec["trails"]:
            p = ref["xyz"][t[-1]] + 0.15 * spec["gscale"] * rng.normal(size=3)
            opt.add_constraint(PointConstraint(t[-1], gen.flist(p)))
        try:
            form = opt.solve(topo, algorithm=gen.pick(rng, ["SLSQP", "LBFGS", "MMA"]), iters=int(rng.integers(2, 12)), eta=1e-6)
        except ValueError:
            raise Skip()
        if opt.status is None:
            raise Skip()
        diagrams = [("optimized form", form), ("optimized topology", topo)]
        ctx.event("optimizer_runs")
    for what, d in diagrams:
        places = {n: [float(c) for c in d.node_coordinates(n)] for n in d.nodes()}
        cells = {}
        for n, p in places.items():
            cells.setdefault(tuple(round(c, 2) for c in p), []).append(n)
        for n, p in places.items():
            near = [k for k, q in places.items() if max(abs(a - b) for a, b in zip(p, q)) < 4.5 * step]
            if len(near) > 1:
                continue
            ctx.event("found")
            if d.node_key(p) != n:
                ctx.fail("{}: location {} of node {} finds {}".format(what, p, n, d.node_key(p)), spec=spec)
            # two tolerances away is somewhere else
            q = list(p)
            q[int(rng.integers(3))] += float(gen.pick(rng, [-2.0, 2.0])) * step
            if q != p:
                ctx.event("not_found")
                if d.node_key(q) is not None:
                    ctx.fail("{}: nothing is at {} but node {} is found there (tolerance {})".format(
                        what, q, d.node_key(q), topo.tol), spec=spec)
        if "form" in what and "topology" not in what or what == "optimized topology":
            for n, p in spec["nodes"]:
                if all(max(abs(a - b) for a, b in zip(p, q)) > 2.5 * step for q in places.values()):
                    ctx.event("not_found")
                    if d.node_key(p) is not None:
                        ctx.fail("{}: nothing is left at {} but node {} is found there".format(what, p, d.node_key(p)), spec=spec)
        ctx.seen(what, common.spec_signature(spec))


def case(ctx):
    if ctx.index % 4 == 3:
        moved_case(ctx)
    else:
        history_case(ctx)
