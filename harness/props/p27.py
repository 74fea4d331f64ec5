"""P27  The Grasshopper components do what the API does."""
import copy
import inspect
import os
import shutil
import tempfile

import numpy as np

import common
import gen
import ghc
import optim
import oracle
from core import Skip
from props.p05 import slow_spec
from props.p07 import check_trails
from props.p24 import remote

ID = "P27"
QUICK = 1400
THOROUGH = 8000
CHUNK = 2
RULE = ("The real component scripts run with the real compas_rhino and compas_ghpython on stand-ins of Rhino's types, inputs by "
        "position and outputs by the names in their metadata. Workflows: random structures assembled from lines, points and "
        "vectors (random order and orientation, empty slots), searched, taken apart, shifted, moved, exported, imported and "
        "form-found, against the structure as generated and the reference equilibrium; random constrained problems made of "
        "parameter and constraint components and solved through the component with a running or a temporary proxy, against a "
        "local solve, also of which settings reach the server; limits at the brink of convergence; lists with less than all parts; "
        "missing inputs, which give nothing. Inputs must come out unchanged. Distinct = workflow x signature.")
MUST_OBSERVE = ["assembled", "searched_nodes", "searched_edges", "shifted", "moved", "forms_compared", "exported", "auxiliary",
                "solved", "temporary_proxies", "running_proxies", "refusals", "inputs_kept", "proxy_components",
                "partly_assembled", "limits", "limits_refused", "default_limits", "last_repeated",
                "server_faults"]


# ----------------------------------------------------------------------------
# assembling
# ----------------------------------------------------------------------------

def holes(rng, items):
    """Grasshopper lists contain empty slots."""
    out = []
    for x in items:
        if rng.random() < 0.08:
            out.append(None)
        out.append(x)
    return out


def relabel(spec, key):
    s = copy.deepcopy(spec)
    s["nodes"] = [[key[k], p] for k, p in s["nodes"]]
    s["edges"] = [[key[e[0]], key[e[1]]] + e[2:] for e in s["edges"]]
    s["supports"] = [key[k] for k in s["supports"]]
    s["loads"] = [[key[k], q] for k, q in s["loads"]]
    s["trails"] = [[key[k] for k in t] for t in s["trails"]]
    s["shifts"] = [[key[k], n] for k, n in s["shifts"]]
    return s


def assemble(ctx, spec, auxiliary=None):
    """The topology made by the components, and what each node is called in it."""
    rng = ctx.rng
    at = {k: p for k, p in spec["nodes"]}
    trail, dev = [], []
    for u, v, kind, value, plane in spec["edges"]:
        ln = ghc.line(at[u], at[v])
        if kind == "trail":
            trail.append(ghc.run(ctx, "EdgeTrail", ln, value, ghc.plane(*plane) if plane is not None else None))
        else:
            dev.append(ghc.run(ctx, "EdgeDeviation", ln, value))
    loads = [ghc.run(ctx, "NodeLoad", ghc.point(at[k]), ghc.vector(q)) for k, q in spec["loads"]]
    supports = [ghc.run(ctx, "NodeSupport", ghc.point(at[k])) for k in spec["supports"]]
    if any(x is None for x in trail + dev + loads + supports):
        ctx.fail("a component gave nothing for complete inputs", spec=spec)
    if rng.random() < 0.25:
        # loads and supports that are scripted by node key: keys are given in the order in which nodes come up
        from compas_cem.loads import NodeLoad
        from compas_cem.supports import NodeSupport
        order = {}
        for kind in ("trail", "deviation"):
            for e in spec["edges"]:
                if e[2] == kind:
                    for k in e[:2]:
                        order.setdefault(k, len(order))
        loads = [NodeLoad(order[k], list(q)) if rng.random() < 0.6 else x for x, (k, q) in zip(loads, spec["loads"])]
        supports = [NodeSupport(order[k]) if rng.random() < 0.6 else x for x, k in zip(supports, spec["supports"])]
        ctx.event("by_key")
    topo = ghc.run(ctx, "TopologyDiagram", holes(rng, trail), holes(rng, dev), holes(rng, loads), holes(rng, supports), auxiliary)
    ctx.event("assembled")
    key = {}
    for k, p in spec["nodes"]:
        key[k] = ghc.run(ctx, "SearchNodeKey", topo, ghc.point(p))
        ctx.event("searched_nodes")
        if key[k] not in set(topo.nodes()) or not np.allclose(topo.node_coordinates(key[k]), p, rtol=0, atol=1e-9):
            ctx.fail("the point {} was found at node {}".format(p, key[k]), spec=spec)
    if len(set(key.values())) != len(key):
        ctx.fail("several points were found at one node: {}".format(key), spec=spec)
    return topo, key


def check_assembled(ctx, topo, spec, extra=()):
    """The topology holds what was put in, and nothing else. extra: nodes of auxiliary trails."""
    if set(topo.nodes()) != {k for k, _ in spec["nodes"]} | set(extra):
        ctx.fail("the assembled topology has nodes {}".format(sorted(topo.nodes())), spec=spec)
    loads = {k: q for k, q in spec["loads"]}
    for k, _ in spec["nodes"]:
        if list(topo.node_load(k)) != list(loads.get(k, [0.0, 0.0, 0.0])):
            ctx.fail("node {} has load {} instead of {}".format(k, topo.node_load(k), loads.get(k)), spec=spec)
    have = {frozenset(e): tuple(e) for e in topo.edges()}
    if len(have) != len(spec["edges"]) + len(extra):
        ctx.fail("the assembled topology has {} edges".format(len(have)), spec=spec)
    for u, v, kind, value, plane in spec["edges"]:
        e = have.get(frozenset((u, v)))
        if e is None or topo.is_trail_edge(e) != (kind == "trail") or topo.is_deviation_edge(e) == (kind == "trail"):
            ctx.fail("edge {} is not the {} edge that was put in".format((u, v), kind), spec=spec)
        got = topo.edge_length_2(e) if kind == "trail" else topo.edge_force(e)
        if got != value:
            ctx.fail("{} edge {} has {} instead of {}".format(kind, e, got, value), spec=spec)
        pl = topo.edge_plane(e)
        if (pl is None) != (plane is None):
            ctx.fail("edge {} has plane {} instead of {}".format(e, pl, plane), spec=spec)
        if plane is not None:
            n = np.array(plane[1]) / np.linalg.norm(plane[1])
            m = np.array(list(pl[1])) / np.linalg.norm(list(pl[1]))
            if not np.allclose(list(pl[0]), plane[0], rtol=0, atol=1e-9) or not np.allclose(n, m, rtol=0, atol=1e-9):
                ctx.fail("edge {} has plane {} instead of {}".format(e, pl, plane), spec=spec)


def keys_of(x):
    return sorted(repr(tuple(i) if isinstance(i, (list, tuple)) else i) for i in x)


def check_parts(ctx, topo, spec, aux=()):
    out = ghc.run(ctx, "DisassembleTopology", topo)
    want = {"node_keys": [k for k, _ in spec["nodes"]],
            "origin_node_keys": [t[0] for t in spec["trails"]],
            "support_node_keys": spec["supports"],
            "trail_keys": spec["trails"],
            "auxiliary_trail_keys": aux}
    seq = oracle.sequences(spec)
    groups = [sorted(n for n in seq if seq[n] == k) for k in range(max(seq.values()) + 1)]
    if [sorted(x) for x in out["sequence_keys"]] != groups:
        ctx.fail("the sequences of the topology are {} instead of {}".format(out["sequence_keys"], groups), spec=spec)
    for name, keys in want.items():
        if keys_of(out[name]) != keys_of(keys):
            ctx.fail("{} of the topology are {} instead of {}".format(name, list(out[name]), list(keys)), spec=spec)
    for name, kinds in (("edge_keys", ("trail", "deviation")), ("trail_edge_keys", ("trail",)),
                        ("deviation_edge_keys", ("deviation",))):
        keys = {frozenset(e[:2]) for e in spec["edges"] if e[2] in kinds}
        if {frozenset(e) for e in out[name]} != keys or len(list(out[name])) != len(keys):
            ctx.fail("{} of the topology are {}".format(name, list(out[name])), spec=spec)


# ----------------------------------------------------------------------------
# form-finding
# ----------------------------------------------------------------------------

def check_form(ctx, topo, spec, ref, eta=None):
    """The form of the component is that of the engine, of the reference, and so are its results."""
    rng = ctx.rng
    g = spec["gscale"]
    kmax = None if rng.random() < 0.6 else int(rng.integers(0, 4))
    tmax = int(gen.pick(rng, [150, 300]))
    eta = eta or float(gen.pick(rng, [1e-9, 1e-7])) * g
    text = common.topo_text(topo)
    limits(ctx, topo, spec)
    if rng.random() < 0.2:
        tmax = eta = None
    from compas_cem.equilibrium import static_equilibrium
    try:
        want = static_equilibrium(topo, kmax=kmax, tmax=tmax or 100, eta=eta or 1e-6)
    except ValueError:
        if eta is None:
            return None, None
        raise
    form = ghc.run(ctx, "FormFinding", topo, kmax, tmax, eta)
    st = common.State(form)
    diff = common.same_state(st, common.State(want), 0.0, 0.0, "")
    ctx.event("forms_compared")
    if diff:
        ctx.fail("the component and the engine differ: {}".format(diff), spec=spec)
    if common.topo_text(topo) != text:
        ctx.fail("form-finding changed the topology", spec=spec)
    if kmax is None and ref is not None and eta is not None:
        tx, tf = common.tolerances(spec, ref, 1e-4)
        diff = common.compare_ref(st, ref, spec, tx, tf)
        if diff:
            ctx.fail(diff, spec=spec)
    check_results(ctx, form, st, spec)
    return form, st


def limits(ctx, topo, spec):
    """Few rounds, coarse thresholds, one of the two left to its default: what the engine gives or refuses, the component does."""
    from compas_cem.equilibrium import static_equilibrium
    rng = ctx.rng
    g = spec["gscale"]
    tmax = gen.pick(rng, [None, None, 1, 2, 5, 20, 101])
    eta = gen.pick(rng, [None, 1e-2 * g, 1e-4 * g, 1e-12 * g, 1e-15 * g])
    args = dict(tmax=100 if tmax is None else tmax, eta=1e-6 if eta is None else eta)
    want, got = outcome(static_equilibrium, topo, **args), outcome(ghc.run, ctx, "FormFinding", topo, None, tmax, eta)
    ctx.event("limits")
    ctx.event("limits_refused", int(isinstance(want, str)))
    if isinstance(want, str) != isinstance(got, str):
        ctx.fail("with tmax {} and eta {} the engine gives {} and the component {}".format(
            tmax, eta, want if isinstance(want, str) else "a form", got if isinstance(got, str) else "a form"), spec=spec)
    if not isinstance(want, str):
        diff = common.same_state(got, want, 0.0, 0.0, "")
        if diff:
            ctx.fail("with tmax {} and eta {} the component and the engine differ: {}".format(tmax, eta, diff), spec=spec)


def outcome(fn, *args, **kw):
    try:
        return common.State(fn(*args, **kw))
    except ValueError as e:
        return str(e)


def brink(ctx):
    """A structure that takes about a hundred rounds: the default limit of a hundred is what decides."""
    from compas_cem.equilibrium import static_equilibrium
    rng = ctx.rng
    spec, ref = slow_spec(rng)
    if spec is None:
        return
    topo = gen.build(spec)
    settles = lambda tmax, eta: not isinstance(outcome(static_equilibrium, topo, tmax=tmax, eta=eta), str)
    lo, hi = 1e-16 * spec["gscale"], 1e2 * spec["gscale"]
    for _ in range(24):
        mid = (lo * hi) ** 0.5
        lo, hi = (lo, mid) if settles(100, mid) else (mid, hi)
    for tmax, eta in ((None, lo), (None, hi), (101, lo), (100, lo), (None, None)):
        args = dict(tmax=100 if tmax is None else tmax, eta=1e-6 if eta is None else eta)
        want = outcome(static_equilibrium, topo, **args)
        got = outcome(ghc.run, ctx, "FormFinding", topo, None, tmax, eta)
        ctx.event("default_limits")
        if isinstance(want, str) != isinstance(got, str):
            ctx.fail("with tmax {} and eta {} the engine gives {} and the component {}".format(
                tmax, eta, want if isinstance(want, str) else "a form", got if isinstance(got, str) else "a form"), spec=spec)
        if not isinstance(want, str):
            diff = common.same_state(got, want, 0.0, 0.0, "")
            if diff:
                ctx.fail("with tmax {} and eta {} the component and the engine differ: {}".format(tmax, eta, diff), spec=spec)


def check_results(ctx, form, st, spec):
    rng = ctx.rng
    parts = ghc.run(ctx, "DisassembleForm", form)
    if keys_of(parts["node_keys"]) != keys_of(st.nodes) or keys_of(parts["edge_keys"]) != keys_of(st.edges) or \
            keys_of(parts["support_node_keys"]) != keys_of(spec["supports"]):
        ctx.fail("the form was taken apart into {}".format(parts), spec=spec)
    some = [gen.pick(rng, st.edges) for _ in range(int(rng.integers(1, 6)))]
    for keys in (None, [], some):
        out = ghc.run(ctx, "ResultsEdges", form, keys)
        order = keys or parts["edge_keys"]
        uf, ul = st.uforce(), st.ulength()
        if [float(f) for f in out["forces"]] != [uf[frozenset(e)] for e in order]:
            ctx.fail("the forces of edges {} are reported as {}".format(order, out["forces"]), spec=spec)
        if [float(f) for f in out["lengths"]] != [ul[frozenset(e)] for e in order]:
            ctx.fail("the lengths of edges {} are reported as {}".format(order, out["lengths"]), spec=spec)
    for keys in (None, [gen.pick(rng, spec["supports"]) for _ in range(int(rng.integers(1, 5)))]):
        out = ghc.run(ctx, "ResultsSupportNodes", form, keys)
        order = keys or parts["support_node_keys"]
        got = [ghc.xyz(p) for p in out]
        if got != [st.reaction[n].tolist() for n in order]:
            ctx.fail("the reactions at {} are reported as {}".format(order, got), spec=spec)


def search(ctx, d, spec, label):
    """Nodes and edges of a diagram are found where they are."""
    rng = ctx.rng
    at = {n: list(map(float, d.node_coordinates(n))) for n in d.nodes()}
    if not gen.coords_distinct({"nodes": list(at.items())}):
        return
    for n in at:
        got = ghc.run(ctx, "SearchNodeKey", d, ghc.point(at[n]))
        ctx.event("searched_nodes")
        if got != n:
            ctx.fail("{}node {} was looked up and {} found".format(label, n, got), spec=spec)
    edges = [tuple(e) for e in d.edges()]
    for _ in range(min(5, len(edges))):
        u, v = gen.pick(rng, edges)
        if rng.random() < 0.5:
            u, v = v, u
        got = ghc.run(ctx, "SearchEdgeKey", d, ghc.line(at[u], at[v]))
        ctx.event("searched_edges")
        if [tuple(e) for e in got] not in ([(u, v)], [e for e in edges if set(e) == {u, v}]):
            ctx.fail("{}edge {} was looked up and {} found".format(label, (u, v), got), spec=spec)


# ----------------------------------------------------------------------------
# workflows
# ----------------------------------------------------------------------------

def workflow(ctx):
    rng = ctx.rng
    spec, ref = gen.good_spec(rng, max_trails=5, max_len=5)
    topo, key = assemble(ctx, spec, gen.pick(rng, [None, False]))
    spec = relabel(spec, key)
    shifts, spec["shifts"] = spec["shifts"], []
    check_assembled(ctx, topo, spec)
    check_trails(ctx, topo, spec)
    check_parts(ctx, topo, spec)
    search(ctx, topo, spec, "")
    text = common.topo_text(topo)
    if len(spec["trails"]) > 2 and rng.random() < 0.5:
        # fewer numbers than trails: the last one goes on
        keys = [t[0] for t in spec["trails"]]
        keys = [keys[i] for i in rng.permutation(len(keys))]
        ks = [int(x) for x in rng.choice(6, size=int(rng.integers(2, len(keys))), replace=False)]
        s = copy.deepcopy(spec)
        s["shifts"] = [[k, ks[min(i, len(ks) - 1)]] for i, k in enumerate(keys)]
        check_trails(ctx, ghc.run(ctx, "TrailsShift", topo, keys, ks), s, "shifted, last number repeated: ")
        ctx.event("last_repeated")
        ps = [gen.flist(x) for x in np.round(s["gscale"] * rng.normal(size=(len(ks), 3)), 4)]
        out = ghc.run(ctx, "OriginNodesMove", topo, keys, [ghc.point(x) for x in ps])
        for i, k in enumerate(keys):
            if list(out.node_coordinates(k)) != list(ps[min(i, len(ks) - 1)]):
                ctx.fail("origin node {} was moved to {} with {} for {}".format(k, out.node_coordinates(k), ps, keys), spec=spec)
        if common.topo_text(topo) != text:
            ctx.fail("shifting or moving changed the topology that came in", spec=spec)
    if shifts:
        keys, ks = [s[0] for s in shifts], [s[1] for s in shifts]
        while len(ks) > 1 and ks[-1] == ks[-2]:
            ks.pop()  # the last value goes on
        moved = ghc.run(ctx, "TrailsShift", topo, keys, ks)
        ctx.event("shifted")
        if common.topo_text(topo) != text:
            ctx.fail("shifting trails changed the topology that came in", spec=spec)
        ctx.event("inputs_kept")
        topo, spec["shifts"] = moved, shifts
        check_trails(ctx, topo, spec, "shifted: ")
        check_assembled(ctx, topo, spec)
        check_parts(ctx, topo, spec)
    ref = dict(ref)
    ref["xyz"] = {key[k]: v for k, v in ref["xyz"].items()}
    ref["reaction"] = {key[k]: v for k, v in ref["reaction"].items()}
    ref["trail_force"] = {frozenset(key[k] for k in e): v for e, v in ref["trail_force"].items()}
    form, st = check_form(ctx, topo, spec, ref)
    if form is not None:
        search(ctx, form, spec, "form: ")
    # the move
    if rng.random() < 0.6:
        move(ctx, topo, spec)
    # files
    folder = tempfile.mkdtemp()
    try:
        for d, comp in ((topo, "JSONImportTopology"), (form, "JSONImportForm")):
            if d is None:
                continue
            path = os.path.join(folder, "d.json")
            text, name = common.topo_text(d), d.name
            out = ghc.run(ctx, "JSONExportDiagram", d, path)
            if common.topo_text(d) != text or d.name != name:
                ctx.fail("the export changed the diagram", spec=spec)
            ctx.event("inputs_kept")
            if repr(out) != repr(d.data):
                ctx.fail("the export reports other data than the diagram's", spec=spec)
            if os.listdir(folder) != ["d.json"]:
                ctx.fail("the export wrote {}".format(os.listdir(folder)), spec=spec)
            back = ghc.run(ctx, comp, path)
            ctx.event("exported")
            if type(back) is not type(d):
                ctx.fail("a {} came back as a {}".format(type(d).__name__, type(back).__name__), spec=spec)
            if d is topo:
                check_trails(ctx, back, spec, "imported: ")
                check_assembled(ctx, back, spec)
                search(ctx, back, spec, "imported: ")
            else:
                diff = common.same_state(common.State(back), st, 0.0, 0.0, "imported: ")
                if diff:
                    ctx.fail(diff, spec=spec)
                search(ctx, back, spec, "imported: ")
    finally:
        shutil.rmtree(folder)
    ctx.seen("workflow", common.spec_signature(spec), bool(shifts))
    ctx.sample = common.spec_sample(spec, workflow="assemble")


def move(ctx, topo, spec):
    rng = ctx.rng
    text = common.topo_text(topo)
    s = copy.deepcopy(spec)
    origins = [t[0] for t in s["trails"] if rng.random() < 0.6] or [s["trails"][0][0]]
    at = {k: p for k, p in s["nodes"]}
    pts = [gen.flist(np.round(np.array(at[k]) + 0.2 * s["gscale"] * rng.normal(size=3), 4)) for k in origins]
    for i, k in enumerate(origins):
        for n in s["nodes"]:
            if n[0] == k:
                n[1] = list(pts[i])
    if not gen.coords_distinct(s):
        return
    out = ghc.run(ctx, "OriginNodesMove", topo, origins, [ghc.point(p) for p in pts])
    ctx.event("moved")
    if common.topo_text(topo) != text:
        ctx.fail("moving origin nodes changed the topology that came in", spec=spec)
    ctx.event("inputs_kept")
    for k, p in s["nodes"]:
        if list(out.node_coordinates(k)) != list(p):
            ctx.fail("node {} is at {} after the move and should be at {}".format(k, out.node_coordinates(k), p), spec=spec)
    check_trails(ctx, out, s, "moved: ")
    check_assembled(ctx, out, s)
    search(ctx, out, s, "moved: ")
    ref = oracle.solve(s, max_iter=90)
    if gen.spec_ok(s, ref):
        check_form(ctx, out, s, ref)


def auxiliary(ctx):
    """Nodes that no trail reaches get an auxiliary trail when the user asks for them."""
    rng = ctx.rng
    spec = copy.deepcopy(gen.raw_spec(rng, planes=False, shifts=False, max_trails=4, max_len=4))
    if rng.random() < 0.25:
        # nothing but deviation edges
        spec["edges"] = [e for e in spec["edges"] if e[2] == "deviation"]
        used = {k for e in spec["edges"] for k in e[:2]}
        if not used:
            raise Skip()
        spec["nodes"] = [n for n in spec["nodes"] if n[0] in used]
        spec["loads"] = [q for q in spec["loads"] if q[0] in used]
        spec["supports"], spec["trails"] = [], []
        free = used
    else:
        free = set()
    top = max(k for k, _ in spec["nodes"])
    for i in range(int(rng.integers(1, 4))):
        k = top + 1 + i
        spec["nodes"].append([k, gen.flist(np.round(spec["gscale"] * (np.array([25.0, 0, 0]) + 6 * rng.normal(size=3)), 3))])
        other = gen.pick(rng, spec["nodes"][:-1])[0]
        spec["edges"].append([k, other, "deviation", float(spec["fscale"] * rng.uniform(0.05, 0.4)), None])
        spec["loads"].append([k, gen.flist(np.round(spec["fscale"] * rng.normal(size=3), 4))])
        free.add(k)
    if not gen.coords_distinct(spec):
        raise Skip()
    topo, key = assemble(ctx, spec, True)
    ctx.event("auxiliary")
    spec = relabel(spec, key)
    new = set(topo.nodes()) - set(key.values())
    if len(new) != len(free):
        ctx.fail("{} auxiliary nodes were made for {} nodes without a trail".format(len(new), len(free)), spec=spec)
    check_assembled(ctx, topo, spec, new)
    aux = [list(t) for t in topo.auxiliary_trails()]
    for n in (key[k] for k in free):
        mine = [t for t in aux if n in t]
        if len(mine) != 1 or len(mine[0]) != 2:
            ctx.fail("node {} has the auxiliary trails {}".format(n, mine), spec=spec)
        a = [m for m in mine[0] if m != n][0]
        spec["nodes"].append([a, list(topo.node_coordinates(a))])
        spec["edges"].append([n, a, "trail", -1.0, None])
        spec["supports"].append(a)
        spec["trails"].append([n, a])
    check_trails(ctx, topo, spec, "auxiliary: ")
    check_parts(ctx, topo, spec, aux)
    ctx.seen("auxiliary", len(free), common.spec_signature(spec))


def used_by(edges):
    return {k for e in edges for k in e[:2]}


def partial(ctx):
    """A topology assembled of some of the lists: what was put in is there, and there are trails when there can be."""
    rng = ctx.rng
    spec = copy.deepcopy(gen.raw_spec(rng, planes=bool(rng.random() < 0.5), shifts=False, max_trails=4, max_len=4))
    trails, devs, loads, supports = (bool(rng.random() < 0.6) for _ in range(4))
    keep = lambda e: trails if e[2] == "trail" else devs
    spec["edges"] = [e for e in spec["edges"] if keep(e)]
    used = used_by(spec["edges"])
    spec["nodes"] = [n for n in spec["nodes"] if n[0] in used]
    spec["loads"] = [q for q in spec["loads"] if q[0] in used] if loads else []
    spec["supports"] = [k for k in spec["supports"] if k in used] if supports else []
    if not spec["edges"]:
        raise Skip()
    if rng.random() < 0.3 and devs and trails:
        # a node that no trail reaches, and nobody asked for auxiliary trails
        k = max(k for k, _ in spec["nodes"]) + 1
        spec["nodes"].append([k, gen.flist(np.round(spec["gscale"] * np.array([31.0, 3.0, 1.0]), 3))])
        spec["edges"].append([k, spec["nodes"][0][0], "deviation", 0.5 * spec["fscale"], None])
    if not gen.coords_distinct(spec):
        raise Skip()
    if not trails or not spec["supports"]:
        spec["trails"] = []
    lonely = used_by(spec["edges"]) - {k for t in spec["trails"] for k in t}
    try:
        topo, key = assemble(ctx, spec, gen.pick(rng, [None, False, False]))
    except AssertionError as e:
        # refused like the API refuses it
        if not spec["trails"] or not lonely:
            ctx.fail("the component raised {!r}".format(e), spec=spec)
        ctx.event("refusals")
        return
    if spec["trails"] and lonely:
        ctx.fail("nodes {} are in no trail and nothing was said about it".format(lonely), spec=spec)
    ctx.event("partly_assembled")
    spec = relabel(spec, key) if spec["trails"] else relabel(dict(spec, trails=[]), key)
    check_assembled(ctx, topo, spec)
    if sorted(topo.support_nodes()) != sorted(spec["supports"]):
        ctx.fail("the supports are {} instead of {}".format(sorted(topo.support_nodes()), sorted(spec["supports"])), spec=spec)
    if bool(topo.has_trails()) != bool(spec["trails"]):
        ctx.fail("there are trails: {}, with {} edges and {} supports".format(topo.has_trails(), len(spec["edges"]), len(spec["supports"])), spec=spec)
    if spec["trails"] and keys_of(list(t) for t in topo.trails()) != keys_of(spec["trails"]):
        ctx.fail("the trails are {} instead of {}".format(list(topo.trails()), spec["trails"]), spec=spec)
    if spec["trails"] and list(topo.auxiliary_trails()):
        ctx.fail("there are auxiliary trails that nobody asked for", spec=spec)
    ctx.seen("partial", trails, devs, loads, supports, len(spec["nodes"]), len(spec["edges"]), len(spec["trails"]))


class Running(object):
    """In place of the socket: the proxy's own dispatcher, here."""
    made = []
    fault = None

    def __init__(self, package=None, python=None, url="http://127.0.0.1", port=1753, service=None, **kw):
        self.package = package
        self.port = port
        self.stopped = 0
        self.calls = []
        Running.made.append(self)

    def stop_server(self):
        self.stopped += 1

    def solve_proxy(self, *args, **kwargs):
        if self.stopped:
            raise RuntimeError("the server is stopped")
        self.calls.append((args, kwargs))
        if Running.fault == "raises":
            raise RuntimeError("remote: Over 100 iters. Residual: 1.0 > eta: 1e-06")
        if Running.fault == "fails":
            # the solver had a runtime error: there is a form, and nothing to report
            topology = bound(args, kwargs)["topology"].copy()
            return [topology, topology, None, None, None, None, None]
        return remote("solve_proxy", *args, **kwargs)


def bound(args, kwargs):
    """What the parameters of solve_proxy are."""
    from compas_cem.optimization import solve_proxy
    b = inspect.signature(solve_proxy).bind(*args, **kwargs)
    b.apply_defaults()
    return b.arguments


def gh_param(ctx, p, key):
    name = {"origin": "ParameterNodeOrigin", "load": "ParameterNodeLoad"}.get(p[0].split("_")[0])
    if name:
        return ghc.run(ctx, name + p[0][-1].upper(), key, p[2], p[3])
    return ghc.run(ctx, {"deviation": "ParameterDeviationEdge", "trail": "ParameterTrailEdge"}[p[0]], key, p[2], p[3])


def gh_constraint(ctx, c, key):
    kind, _, target, w = c
    if w == 1.0 and ctx.rng.random() < 0.5:
        w = None  # nothing connected
    if kind == "point":
        return ghc.run(ctx, "ConstraintNodePoint", key, ghc.point(target), w)
    if kind == "line":
        return ghc.run(ctx, "ConstraintNodeLine", key, ghc.line(*target), w)
    if kind == "plane":
        return ghc.run(ctx, "ConstraintNodePlane", key, ghc.plane(*target), w)
    if kind == "polyline":
        return ghc.run(ctx, "ConstraintNodePolyline", key, ghc.polyline(target), w)
    if kind == "reaction":
        return ghc.run(ctx, "ConstraintReactionForce", key, ghc.vector(target), w)
    if kind == "trail_force":
        return ghc.run(ctx, "ConstraintTrailEdgeForce", key, target, w)
    if kind == "length":
        return ghc.run(ctx, "ConstraintDeviationEdgeLength", key, target, w)
    return ghc.run(ctx, "ConstraintEdgeDirection", key, ghc.vector(target), w)


def constrained(ctx):
    import scriptcontext
    import compas.rpc
    from compas_cem import PROXY_PORT
    rng = ctx.rng
    spec, ref, params, cons = optim.good_problem(rng)
    g, f = spec["gscale"], max(spec["fscale"], ref["max_residual"])
    topo, key = assemble(ctx, spec)
    spec = relabel(spec, key)
    if spec["shifts"]:
        topo = ghc.run(ctx, "TrailsShift", topo, [s[0] for s in spec["shifts"]], [s[1] for s in spec["shifts"]])
    new = lambda k: tuple(key[i] for i in k) if isinstance(k, (tuple, list)) else key[k]
    params = [[p[0], new(p[1]), p[2], p[3]] for p in params]
    cons = [[c[0], new(c[1]), c[2], c[3]] for c in cons]
    at = {n: topo.node_coordinates(n) for n in topo.nodes()}

    def handle(k, directed=False):
        if not isinstance(k, tuple) or directed:
            return k
        u, v = k
        got = ghc.run(ctx, "SearchEdgeKey", topo, ghc.line(at[u], at[v]))
        if len(got) != 1 or tuple(got[0]) != (u, v):
            ctx.fail("edge {} was looked up and {} found".format((u, v), got), spec=spec)
        ctx.event("searched_edges")
        return got[0]
    ps = [gh_param(ctx, p, handle(p[1])) for p in params]
    cs = [gh_constraint(ctx, c, handle(c[1], c[0] == "direction")) for c in cons]
    if any(x is None for x in ps + cs):
        ctx.fail("a parameter or constraint component gave nothing for complete inputs", spec=spec, params=params, cons=cons)
    algorithm = optim.ALGORITHMS[(ctx.index // 4) % 6]
    iters, eps, kappa = int(gen.pick(rng, [1, 3, 8, 25])), gen.pick(rng, [1e-6, 1e-3, 3.0, 40.0]), gen.pick(rng, [1e-8, 1e-3, 2.5])
    tmax, eta = int(gen.pick(rng, [200, 250])), float(gen.pick(rng, [1e-9, 1e-7])) * g
    kw = dict(algorithm=algorithm, iters=iters, eps=eps, kappa=kappa, tmax=tmax, eta=eta)
    given = [algorithm, iters, eps, kappa, tmax, eta]
    if rng.random() < 0.2:
        kw = dict(algorithm="SLSQP", iters=100, eps=1e-6, kappa=1e-8, tmax=100, eta=1e-6)
        given = [None] * 6
    elif rng.random() < 0.3:
        i = int(rng.integers(0, 4))
        name = ("algorithm", "iters", "eps", "kappa")[i]
        kw[name], given[i] = ("SLSQP", 100, 1e-6, 1e-8)[i], None
    info = dict(spec=spec, params=params, cons=cons, kw=kw)

    mine = topo.copy()
    opt = optim.optimizer(params, cons)
    form, err, rec = optim.monitored(opt.solve, mine, **kw)
    if optim.diverged(err, rec) and given[0] is None:
        raise Skip()
    if err is not None:
        ctx.fail("the local solve raised {!r}".format(err), **info)

    real = compas.rpc.Proxy
    Running.made = []
    compas.rpc.Proxy = Running
    ghc._loaded.pop("ConstrainedFormFinding", None)
    ghc._loaded.pop("Proxy", None)
    scriptcontext.sticky.clear()
    text = common.topo_text(topo)
    running = rng.random() < 0.5
    try:
        if running:
            ghc.run(ctx, "Proxy", True, gen.pick(rng, [False, None]))
            ctx.event("proxy_components")
            if len(Running.made) != 1 or scriptcontext.sticky.get("proxy_cem") is not Running.made[0] or \
                    Running.made[0].stopped or Running.made[0].port != PROXY_PORT:
                ctx.fail("the proxy component did not start a proxy", **info)
        if rng.random() < 0.3:
            bad = [[False, topo, cs, ps], [None, topo, cs, ps], [True, None, cs, ps], [True, topo, [], ps], [True, topo, cs, []],
                   [True, topo, None, ps]]
            if ghc.run(ctx, "ConstrainedFormFinding", *(gen.pick(rng, bad) + given)) is not None:
                ctx.fail("the component solved without being told to or without a problem", **info)
            ctx.event("refusals")
            if any(p.calls for p in Running.made) or len(Running.made) != int(running):
                ctx.fail("an idle component used a proxy", **info)
        # the same component object may solve again
        for again in range(int(rng.integers(1, 3))):
            out, err2, rec2 = optim.monitored(ghc.run, ctx, "ConstrainedFormFinding",
                                              *([True, topo, holes(rng, cs), holes(rng, ps)] + given))
            if err2 is not None:
                ctx.fail("the component raised {!r}".format(err2), **info)
            ctx.event("solved")
            if running:
                ctx.event("running_proxies")
                p = Running.made[0]
                if len(Running.made) != 1 or len(p.calls) != again + 1 or p.stopped:
                    ctx.fail("the component did not use the running proxy, or stopped it", **info)
            else:
                ctx.event("temporary_proxies")
                if len(Running.made) != again + 1 or any(len(p.calls) != 1 or not p.stopped for p in Running.made):
                    ctx.fail("the component left its temporary proxy running", **info)
            got = bound(*Running.made[-1 if not running else 0].calls[-1])
            for name, value in kw.items():
                if got[name] != value or type(got[name]) is not type(value):
                    ctx.fail("{} is {!r} for the server and should be {!r}".format(name, got[name], value), **info)
            if optim.unsteady(rec[-1], rec2[-1], lambda: optim.monitored(optim.optimizer(params, cons).solve, topo.copy(), **kw)):
                raise Skip()
            check_solution(ctx, out, mine, opt, form, rec[-1], rec2[-1], info)
            if common.topo_text(topo) != text:
                ctx.fail("solving changed the topology that came in", **info)
            ctx.event("inputs_kept")
        if rng.random() < 0.4:
            # a problem that cannot be solved: a temporary server does not outlive the component, a running one goes on
            Running.fault = gen.pick(rng, ["raises", "fails"])
            n = len(Running.made)
            try:
                bad = ghc.run(ctx, "ConstrainedFormFinding", *([True, topo, cs, ps] + given))
                if Running.fault == "raises":
                    ctx.fail("the component hid the error of the server and gave {}".format(bad), **info)
                if any(bad[k] is not None for k in ("objective", "grad_norm", "iters", "status")):
                    ctx.fail("the component reports {} of a failed solve".format(bad), **info)
            except RuntimeError:
                if Running.fault == "fails":
                    raise
            finally:
                Running.fault = None
            ctx.event("server_faults")
            if not running and (len(Running.made) != n + 1 or not Running.made[n].stopped):
                ctx.fail("the component left its temporary proxy running after a failure", **info)
            if running and (len(Running.made) != n or Running.made[0].stopped):
                ctx.fail("the component stopped the running proxy after a failure", **info)
        if not running and rng.random() < 0.3:
            # nothing to stop on record
            n = len(Running.made)
            ghc.run(ctx, "Proxy", gen.pick(rng, [False, None]), True)
            if "proxy_cem" in scriptcontext.sticky or not any(p.stopped and p.port == PROXY_PORT for p in Running.made[n:]):
                ctx.fail("the proxy component stopped no server", **info)
        if running:
            ghc.run(ctx, "Proxy", gen.pick(rng, [False, None]), True)
            if "proxy_cem" in scriptcontext.sticky:
                ctx.fail("the proxy is on record after it was stopped", **info)
            if not any(p.stopped and p.port == PROXY_PORT for p in Running.made):
                ctx.fail("the proxy component stopped no server", **info)
    finally:
        Running.fault = None
        compas.rpc.Proxy = real
        scriptcontext.sticky.clear()
    ctx.seen("constrained", running, algorithm, optim.problem_signature(spec, params, cons))
    ctx.sample = {"workflow": "constrained", "running": running, "algorithm": algorithm, "status": str(out["status"])}


def check_solution(ctx, out, mine, opt, form, a, b, info):
    spec, params, cons = info["spec"], info["params"], info["cons"]
    g, f = spec["gscale"], spec["fscale"]
    for name in ("algorithm", "maxeval", "stopval", "ftol"):
        if a[name] != b[name]:
            ctx.fail("{} is {} for the local solver and {} for the component's".format(name, a[name], b[name]), **info)
    unit = np.array([g if p[0].startswith("origin") or p[0] == "trail" else f for p in params])
    x, y = optim.topo_values(mine, params), optim.topo_values(out["topology"], params)
    if not np.all(np.abs(x - y) <= 1e-3 * unit):
        ctx.fail("the local optimum is {} and the component's {}".format(x.tolist(), y.tolist()), **info)
    st = common.State(out["form"])
    diff = common.same_state(st, common.State(form), 2e-2 * g, 5e-2 * max(f, max(abs(v) for v in st.force.values())), "")
    if diff:
        ctx.fail("the component's form is not the local one: {}".format(diff), **info)
    if opt.x_opt is None:
        return
    if out["status"] != opt.status or out["iters"] != opt.evals:
        ctx.fail("the component reports {} after {} evaluations, the local solve {} after {}".format(
            out["status"], out["iters"], opt.status, opt.evals), **info)
    noise = max(c[3] for c in cons) * max(g, f, max(abs(v) for v in st.force.values())) ** 2
    if not abs(out["objective"] - opt.penalty) <= 1e-3 * abs(opt.penalty) + 1e-7 * noise:
        ctx.fail("the component reports the objective {} and the local solve {}".format(out["objective"], opt.penalty), **info)
    if not abs(out["grad_norm"] - opt.gradient_norm) <= 1e-2 * abs(opt.gradient_norm) + 1e-5 * noise:
        ctx.fail("the component reports the gradient norm {} and the local solve {}".format(
            out["grad_norm"], opt.gradient_norm), **info)
    if not 0.0 <= out["time"] < 600.0:
        ctx.fail("the component reports a duration of {}".format(out["time"]), **info)


def incomplete(ctx):
    """Inputs that are not connected give nothing; key 0 and value 0.0 are inputs like any other."""
    rng = ctx.rng
    spec, _ = gen.good_spec(rng, max_trails=3, max_len=3)
    topo, key = assemble(ctx, spec)
    from compas_cem.equilibrium import static_equilibrium
    form = static_equilibrium(topo)
    text, ftext = common.topo_text(topo), common.topo_text(form)
    p, v, ln = ghc.point([1, 2, 3]), ghc.vector([1, 0, 0]), ghc.line([0, 0, 0], [1, 0, 0])
    pl, poly = ghc.plane([0, 0, 0], [0, 0, 1]), ghc.polyline([[0, 0, 0], [1, 1, 1]])
    e, n = tuple(list(topo.edges())[0]), 0
    w = lambda: gen.pick(rng, [None, 1.0, 2.0, 3, 1e-9, 1e-4, 0.25, 1e7])
    full = {"EdgeTrail": [ln, gen.pick(rng, [-1.0, 0.0, 0, 1e-9, 2]), gen.pick(rng, [None, pl])], "EdgeDeviation": [ln, 0.0], "NodeLoad": [p, v], "NodeSupport": [p],
            "ConstraintNodePoint": [n, p, w()], "ConstraintNodeLine": [n, ln, w()], "ConstraintNodePlane": [n, pl, w()],
            "ConstraintNodePolyline": [n, poly, w()], "ConstraintReactionForce": [n, v, w()],
            "ConstraintTrailEdgeForce": [e, 0.0, w()], "ConstraintDeviationEdgeLength": [e, 0.0, w()],
            "ConstraintEdgeDirection": [e, v, w()], "ParameterTrailEdge": [e, None, 1.0], "ParameterDeviationEdge": [e, 0.0, None],
            "SearchNodeKey": [topo, ghc.point(spec["nodes"][0][1])],
            "SearchEdgeKey": [topo, ghc.line(topo.node_coordinates(e[0]), topo.node_coordinates(e[1]))],
            "FormFinding": [topo, None, None, None], "DisassembleForm": [form], "DisassembleTopology": [topo],
            "ResultsEdges": [form, []], "ResultsSupportNodes": [form, []],
            "TrailsShift": [topo, [list(topo.origin_nodes())[0]], [0]],
            "OriginNodesMove": [topo, [list(topo.origin_nodes())[0]], [p]]}
    for ax in "XYZ":
        full["ParameterNodeLoad" + ax] = [n, 0.0, 0.0]
        full["ParameterNodeOrigin" + ax] = [n, None, None]
    optional = {"EdgeTrail": (2,), "FormFinding": (1, 2, 3), "ResultsEdges": (1,), "ResultsSupportNodes": (1,)}
    for name, inputs in full.items():
        out = ghc.run(ctx, name, *inputs)
        if out is None:
            ctx.fail("{} gave nothing for complete inputs {}".format(name, inputs), spec=spec)
        need = [i for i in range(len(inputs)) if i not in optional.get(name, ())]
        if name.startswith("Constraint"):
            need = [0, 1]
        elif name.startswith("Parameter"):
            need = [0]
        i = gen.pick(rng, need)
        bad = list(inputs)
        bad[i] = None
        if ghc.run(ctx, name, *bad) is not None:
            ctx.fail("{} gave something without its input {}".format(name, i), spec=spec)
        ctx.event("refusals")
        check_made(ctx, name, inputs, out)
        if name in ("EdgeTrail", "EdgeDeviation"):
            got = out.attributes["length" if name == "EdgeTrail" else "force"]
            if got != inputs[1]:
                ctx.fail("{} made an edge of {} from {}".format(name, got, inputs[1]), spec=spec)
    if ghc.run(ctx, "Proxy", gen.pick(rng, [None, False]), gen.pick(rng, [None, False])) is not None:
        ctx.fail("the proxy component did something")
    for name in ("JSONImportForm", "JSONImportTopology"):
        if ghc.run(ctx, name, gen.pick(rng, [None, ""])) is not None:
            ctx.fail("{} gave something without a file".format(name))
    if ghc.run(ctx, "JSONExportDiagram", *gen.pick(rng, [[topo, None], [None, "/nonexistent/x.json"]])) is not None:
        ctx.fail("the export gave something without a diagram or a file")
    if common.topo_text(topo) != text or common.topo_text(form) != ftext:
        ctx.fail("a component changed its input", spec=spec)
    ctx.event("inputs_kept")
    if rng.random() < 0.2:
        colors(ctx)
    ctx.seen("incomplete", common.spec_signature(spec))


AXIS = {"X": "x", "Y": "y", "Z": "z"}


def check_made(ctx, name, inputs, out):
    """The object is the one the API makes of the same inputs."""
    if name.startswith("Parameter"):
        kind = {"ParameterTrailEdge": "trail", "ParameterDeviationEdge": "deviation"}.get(name)
        if kind is None:
            kind = ("load_" if "Load" in name else "origin_") + AXIS[name[-1]]
        want = optim.param_object([kind, inputs[0], inputs[1], inputs[2]])
        got = [type(out), out.data]
        if got != [type(want), want.data]:
            ctx.fail("{} made {} of {}".format(name, got, inputs))
    elif name.startswith("Constraint"):
        w = 1.0 if inputs[2] is None else inputs[2]
        check_target(ctx, name, inputs[1], out)
        got = out.key()
        if (tuple(got) if isinstance(got, (list, tuple)) else got) != inputs[0] or float(out.weight) != w:
            ctx.fail("{} made a constraint on {} with weight {} of {}".format(name, out.key(), out.weight, inputs))


def flat(x):
    """The numbers in a target, or in a stand-in of Rhino's geometry."""
    if isinstance(x, (int, float, np.floating)):
        return [float(x)]
    if hasattr(x, "X"):
        return [x.X, x.Y, x.Z]
    return [f for i in x for f in flat(i)]


def check_target(ctx, name, given, out):
    if name in ("ConstraintTrailEdgeForce", "ConstraintDeviationEdgeLength"):
        if out.target() != given:
            ctx.fail("{} made a target {} of {}".format(name, out.target(), given))
    elif name == "ConstraintNodePoint":
        if flat(out.target()) != flat(given):
            ctx.fail("{} made a target {} of {}".format(name, out.target(), given))


def colors(ctx):
    from compas_cem import COLORS
    out = ghc.run(ctx, "ArtistColors")
    for name, c in out.items():
        k = name[len("color_"):]
        want = COLORS[{"reaction": "support_force"}.get(k, k)]
        if tuple(c) != ("color",) + tuple(want):
            ctx.fail("{} is {} instead of {}".format(name, c, want))
    import compas_cem
    if compas_cem.__version__ not in ghc.run(ctx, "Info"):
        ctx.fail("the info does not tell the version")


def case(ctx):
    ghc.setup()
    which = ctx.index % 4
    if which == 0:
        workflow(ctx)
    elif which == 1:
        constrained(ctx)
    elif which == 2:
        gen.pick(ctx.rng, [auxiliary, auxiliary, partial, workflow])(ctx)
    elif ctx.index % 16 == 3:
        brink(ctx)
    else:
        incomplete(ctx)
