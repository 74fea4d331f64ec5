"""P16  Diagrams survive being saved, sent and copied."""
import copy
import io
import os
import pickle
import shutil
import tempfile

import numpy as np

import common
import edits
import gen
import oracle
from core import Skip
from props.p07 import check_trails
from props.p15 import check as check_queries

ID = "P16"
QUICK = 1500
THOROUGH = 20000
RULE = ("Topologies (with and without trails, shifts, planes, auxiliary trails, optimized or not) and forms go through "
        "chains of 1-4 transports: JSON file, JSON string, data dictionary, copy, deepcopy, pickle. What comes out must "
        "answer every query identically, give bitwise the same form, stay fully editable (edit, rebuild, find the form "
        "again), and share nothing with the original. Distinct = chain x diagram kind x structure signature.")
MUST_OBSERVE = ["json_file", "json_string", "data", "copy", "deepcopy", "pickle", "forms_identical", "usable_after",
                "independent", "form_diagrams", "with_auxiliary"]


def transport(rng, d, how, folder):
    cls = type(d)
    if how == "json_file":
        path = os.path.join(folder, "d{}.json".format(int(rng.integers(1 << 30))))
        d.to_json(path)
        return cls.from_json(path)
    if how == "json_string":
        return cls.from_jsonstring(d.to_jsonstring())
    if how == "data":
        return cls.from_data(d.to_data())
    if how == "copy":
        return d.copy()
    if how == "deepcopy":
        return copy.deepcopy(d)
    return pickle.loads(pickle.dumps(d))


HOWS = ["json_file", "json_string", "data", "copy", "deepcopy", "pickle"]


class Geometry(object):
    """Plane normals are normalised again on the way: equal up to the last digits."""

    def __init__(self, x):
        self.x = np.array(x)

    def __eq__(self, other):
        return isinstance(other, Geometry) and self.x.shape == other.x.shape and \
            bool(np.allclose(self.x, other.x, rtol=1e-12, atol=1e-12))

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return repr(self.x.tolist())


def text(d):
    """What a user can read, in a form that can be compared."""
    out = {"nodes": {}, "edges": {}, "cls": type(d).__name__, "tol": d.tol}
    for n in d.nodes():
        out["nodes"][n] = ([float(c) for c in d.node_coordinates(n)], [float(c) for c in d.node_load(n)],
                           [float(c) for c in d.reaction_force(n)], bool(d.is_node_support(n)))
    for e in d.edges():
        e = tuple(e)
        p = d.edge_plane(e) if "plane" in d.edge[e[0]][e[1]] else None
        p = None if p is None else Geometry([[float(c) for c in x] for x in p])
        out["edges"][e] = (float(d.edge_force(e)), float(d.edge_length_2(e)), d.edge_attribute(e, "type"), p)
    if hasattr(d, "trails"):
        out["trails"] = {k: tuple(t) for k, t in d.trails(keys=True)}
        out["aux"] = {k: tuple(t) for k, t in d.auxiliary_trails(keys=True)}
        out["aux_length"] = d.auxiliary_trail_length
        out["aux_vector"] = list(d.auxiliary_trail_vector)
        out["origins"] = sorted(d.origin_nodes())
        out["aux_edges"] = sorted(tuple(e) for e in d.auxiliary_trail_edges())
        if d.has_trails():
            out["seq"] = {n: d.node_sequence(n) for n in d.nodes()}
            out["direct"] = sorted(tuple(e) for e in d.direct_deviation_edges())
            out["sequences"] = [sorted(s) for s in d.sequences()]
            out["trails_sequences"] = {k: dict(v) for k, v in d.trails_sequences().items()}
    return out


def differences(a, b):
    for k in a:
        if a[k] != b.get(k):
            if isinstance(a[k], dict) and isinstance(b.get(k), dict):
                for x in set(a[k]) | set(b[k]):
                    if a[k].get(x) != b[k].get(x):
                        return "{}[{}] was {} and is {}".format(k, x, a[k].get(x), b[k].get(x))
                return "{} has other key types".format(k)
            return "{} was {} and is {}".format(k, a[k], b.get(k))
    return None


def lookup_ok(ctx, d, label):
    places = {n: [float(c) for c in d.node_coordinates(n)] for n in d.nodes()}
    for n, p in places.items():
        if sum(1 for q in places.values() if max(abs(a - b) for a, b in zip(p, q)) < 2.5e-3) > 1:
            continue
        if d.node_key(p) != n:
            ctx.fail("{}: location {} of node {} finds {}".format(label, p, n, d.node_key(p)))


def case(ctx):
    folder = tempfile.mkdtemp(prefix="verif_p16_")
    try:
        _case(ctx, folder)
    finally:
        shutil.rmtree(folder)


def _case(ctx, folder):
    rng = ctx.rng
    if ctx.index % 40 == 19:
        _, spec, ref = gen.exotic(rng, ["wide", "long"])
        ctx.event("large_diagrams")
    else:
        spec, ref = gen.good_spec(rng, max_trails=5, max_len=5)
    kind = gen.pick(rng, ["plain", "plain", "no_trails", "auxiliary", "form", "form", "optimized"])
    topo = gen.build(spec, trails=kind != "no_trails", plane_mode=gen.pick(rng, ["Plane", "tuple"]))
    if kind == "auxiliary":
        from compas_cem.elements import Node
        if rng.random() < 0.5:
            topo.auxiliary_trail_length = 0.5
            topo.auxiliary_trail_vector = [0.0, 0.0, 2.0]
        for i in range(int(rng.integers(1, 4))):
            topo.add_node(Node(max(topo.nodes()) + 3, gen.flist(np.round(50 + 5 * rng.normal(size=3), 3))))
        topo.build_trails(auxiliary_trails=True)
        ctx.event("with_auxiliary")
    if kind == "optimized":
        from compas_cem.optimization import Optimizer, OriginNodeXParameter, PointConstraint, DeviationEdgeParameter
        opt = Optimizer()
        t = gen.pick(rng, spec["trails"])
        opt.add_parameter(OriginNodeXParameter(t[0], 0.1 * spec["gscale"], 0.1 * spec["gscale"]))
        for u, v, k, val, _ in spec["edges"]:
            if k == "deviation" and rng.random() < 0.5 and val:
                opt.add_parameter(DeviationEdgeParameter((u, v), 0.05 * abs(val), 0.05 * abs(val)))
        opt.add_constraint(PointConstraint(t[-1], gen.flist(ref["xyz"][t[-1]] + 0.05)))
        try:
            opt.solve(topo, iters=4)
        except ValueError:
            raise Skip()
    d = topo
    if kind == "form":
        name, eng = gen.pick(rng, common.engines())
        d = eng(topo)
        ctx.event("form_diagrams")

    before = text(d)
    chain = [gen.pick(rng, HOWS) for _ in range(int(rng.integers(1, 5)))]
    if ctx.index % 2 == 0:
        chain = [HOWS[(ctx.index // 2) % len(HOWS)]]
    out = d
    for how in chain:
        prev = out
        out = transport(rng, out, how, folder)
        ctx.event(how)
        if out is prev:
            ctx.fail("{} returned the same object".format(how), spec=spec)
    diff = differences(before, text(out))
    if diff:
        ctx.fail("{} through {}: {}".format(kind, chain, diff), spec=spec)
    lookup_ok(ctx, out, "{} through {}".format(kind, chain))
    if text(d) != before:
        ctx.fail("{}: {} changed the original".format(kind, chain), spec=spec)

    if kind not in ("form", "no_trails"):
        if kind == "plain":
            check_trails(ctx, out, spec, "{} through {}: ".format(kind, chain))
        for name, eng in common.engines():
            a, b = text(eng(d, tmax=300)), text(eng(out, tmax=300))
            ctx.event("forms_identical")
            # the iteration order of an equal diagram is part of the diagram
            diff = differences(a, b)
            if diff:
                sa, sb = common.State(eng(d, tmax=300, eta=1e-10 * spec["gscale"])), common.State(
                    eng(out, tmax=300, eta=1e-10 * spec["gscale"]))
                tx, tf = common.tolerances(spec, ref)
                diff = common.same_state(sa, sb, tx, tf)
                if diff:
                    ctx.fail("{} through {}, {} engine: {}".format(kind, chain, name, diff), spec=spec)

    # nothing is shared: change everything in the copy, the original must not notice, and vice versa
    # (a data dictionary is a view on the diagram it was taken from, in compas: not a copy)
    twin = transport(rng, d, gen.pick(rng, [h for h in HOWS if h != "data"]), folder)
    for n in list(twin.nodes()):
        twin.node_attributes(n, ["x", "y", "z", "qx", "qy", "qz", "rx"], [9e9] * 7)
        twin.node_attribute(n, "type", "junk")
    for e in list(twin.edges()):
        twin.edge_attribute(e, "force", 1e7)
        p = twin.edge_plane(e) if "plane" in twin.edge[e[0]][e[1]] else None
        if p is not None and not isinstance(p, tuple):
            p[0][0] = 1e7
    twin.delete_node(list(twin.nodes())[0])
    if hasattr(twin, "trails"):
        twin.auxiliary_trail_length = 99.0
        try:
            twin.auxiliary_trail_vector[0] = 99.0
        except TypeError:
            pass
    twin.tol = "1f"
    ctx.event("independent")
    diff = differences(before, text(d))
    if diff:
        ctx.fail("{}: changing a copy changed the original: {}".format(kind, diff), spec=spec)
    lookup_ok(ctx, d, "{} after changing a copy".format(kind))

    # it is still a diagram one can work with
    if kind in ("plain", "no_trails"):
        s = copy.deepcopy(spec)
        if kind == "no_trails":
            s["shifts"] = []
        history = []
        for _ in range(int(rng.integers(1, 6))):
            res = edits.structural_edit(rng, s, out)
            if res is None:
                continue
            history.append(res[0])
            s = res[1]
        if gen.coords_distinct(s):
            out.build_trails()
            s["shifts"] = []
            check_trails(ctx, out, s, "{} through {}, then {}: ".format(kind, chain, history))
            check_queries(ctx, out, s, "{} through {}, then {}: ".format(kind, chain, history))
            ctx.event("usable_after")
            r = oracle.solve(s, max_iter=100)
            if gen.spec_ok(s, r):
                name, eng = gen.pick(rng, common.engines())
                st = common.State(eng(out, tmax=300, eta=1e-10 * s["gscale"]))
                tx, tf = common.tolerances(s, r)
                diff = common.compare_ref(st, r, s, tx, tf)
                if diff:
                    ctx.fail("{} through {}, then {}, {} engine: {}".format(kind, chain, history, name, diff), spec=s)
        lookup_ok(ctx, out, "{} through {}, then {}".format(kind, chain, history))
    ctx.seen(kind, tuple(chain), common.spec_signature(spec))
    ctx.sample = common.spec_sample(spec, kind=kind, chain=chain)
