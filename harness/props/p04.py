"""P04  Form-finding is a pure function of the current topology."""
import copy

import numpy as np

import common
import edits
import gen
import optim
import oracle
from core import Skip

ID = "P04"
QUICK = 1500
THOROUGH = 20000
RULE = ("Histories of form-finding calls interleaved with edits of one topology (loads, lengths, forces, planes, origins, "
        "shifts, nodes, edges and whole trails), with optimizations, partial calls, copies that go their own way, calls on unrelated "
        "topologies, failing calls and with mutations of earlier forms. After each "
        "call the topology must read exactly as before it, and the form must equal the one of a topology freshly built "
        "in the current state. Distinct = sequence of operations x structure signature.")
MUST_OBSERVE = ["forms_vs_fresh", "topology_unchanged", "forms_mutated", "edits", "failed_calls", "repeats_bitwise",
                "structural_edits", "partial_calls", "twins", "optimizations"]


def settles(spec, topo):
    """Well conditioned; whether the iteration converges may depend on the order of the trails."""
    rank = {t[0]: i for i, t in enumerate(topo.trails())}
    trails = sorted(spec["trails"], key=lambda t: rank.get(t[0], 0))
    if trails != spec["trails"]:
        s = dict(spec, trails=trails)
        if not gen.spec_ok(s, oracle.solve(s, max_iter=90)):
            return False
    return gen.spec_ok(spec, oracle.solve(spec, max_iter=90))


def edit(rng, spec, topo, ctx):
    """Apply the same random edit to the spec and to the live topology."""
    from compas.geometry import Plane
    from compas_cem.loads import NodeLoad
    kind = gen.pick(rng, ["load", "length", "force", "origin", "shift", "plane", "unplane", "rebuild"])
    new = copy.deepcopy(spec)

    def key_of(e):
        return (e[0], e[1]) if topo.has_edge(e[0], e[1]) else (e[1], e[0])

    todo = None
    if kind == "load":
        n = gen.pick(rng, [k for k, _ in spec["nodes"]])
        old = dict((k, q) for k, q in spec["loads"]).get(n, [0.0, 0.0, 0.0])
        q = gen.flist(np.array(old) + 0.3 * spec["fscale"] * rng.normal(size=3))
        new["loads"] = [x for x in new["loads"] if x[0] != n] + [[n, q]]

        def todo():
            topo.add_load(NodeLoad(n, list(q)))
    elif kind in ("length", "plane", "unplane"):
        cand = [j for j, e in enumerate(spec["edges"]) if e[2] == "trail" and (kind != "unplane" or e[4] is not None)]
        if not cand:
            return None
        j = gen.pick(rng, cand)
        e = new["edges"][j]
        if kind == "length":
            e[3] = float(e[3] * rng.uniform(0.7, 1.4))

            def todo():
                topo.edge_attribute(key_of(e), "length", e[3])
        elif kind == "plane":
            a, b = gen.ordered(spec, e)
            ref = oracle.solve(spec, max_iter=90)
            d = ref["xyz"][b] - ref["xyz"][a]
            e[4] = [gen.flist(ref["xyz"][b] + 0.1 * d), gen.flist(d / np.linalg.norm(d) + 0.2 * rng.normal(size=3))]

            def todo():
                topo.edge_attribute(key_of(e), "plane", Plane(*e[4]))
        else:
            e[4] = None

            def todo():
                from compas_cem.elements import TrailEdge
                topo.add_edge(TrailEdge(*key_of(e), length=e[3], plane=None))
    elif kind == "force":
        cand = [j for j, e in enumerate(spec["edges"]) if e[2] == "deviation"]
        if not cand:
            return None
        e = new["edges"][gen.pick(rng, cand)]
        e[3] = float(e[3] * rng.uniform(-0.5, 1.5))

        def todo():
            topo.edge_attribute(key_of(e), "force", e[3])
    elif kind == "origin":
        t = gen.pick(rng, spec["trails"])[0]
        p = dict((k, p) for k, p in spec["nodes"])[t]
        p = gen.flist(np.round(np.array(p) + 0.3 * spec["gscale"] * rng.normal(size=3), 4))
        new["nodes"] = [[k, (p if k == t else q)] for k, q in spec["nodes"]]
        via = gen.pick(rng, ["node_xyz", "attributes"])

        def todo():
            if via == "node_xyz":
                topo.node_xyz(t, list(p))
            else:
                topo.node_attributes(t, "xyz", list(p))
    elif kind == "shift":
        t = gen.pick(rng, spec["trails"])[0]
        k = int(rng.integers(0, 5))
        new["shifts"] = [s for s in spec["shifts"] if s[0] != t] + [[t, k]]

        def todo():
            topo.shift_trail(t, k)
    else:
        new["shifts"] = []

        def todo():
            topo.build_trails()

    if not settles(new, topo):
        return None
    todo()
    ctx.event("edits")
    return kind, new


def scribble(rng, form):
    """Overwrite everything reachable from a form."""
    for n in list(form.nodes()):
        form.node_attributes(n, ["x", "y", "z", "qx", "qy", "qz", "rx", "ry", "rz"], [9e9] * 9)
        form.node_attribute(n, "type", "junk")
        form.node_attribute(n, "_k", 77)
    for e in list(form.edges()):
        pl = form.edge_plane(e)
        if pl is not None:
            try:
                pl.point.x = 1e9
                pl.normal = [0.1, 0.2, 0.3]
            except AttributeError:
                pass
            if isinstance(pl, (list, tuple)):
                for part in pl:
                    if isinstance(part, list):
                        part[0] = 1e9
        form.edge_attributes(e, ["length", "force", "type"], [1e9, -1e9, "junk"])
    form.gkey_node.clear()
    for v in list(form.attributes.values()):
        if isinstance(v, dict):
            v.clear()
        elif isinstance(v, list):
            del v[:]
    for e in list(form.edges())[:2]:
        form.delete_edge(*e)


def case(ctx):
    rng = ctx.rng
    spec, ref = gen.good_spec(rng)
    topo = gen.build(spec, plane_mode=gen.pick(rng, ["Plane", "tuple"]))
    other_spec, _ = gen.good_spec(rng)
    other = gen.build(other_spec)
    ops = []
    eta, tmax = 1e-10 * spec["gscale"], 400
    alive = None
    for step in range(int(rng.integers(2, 8))):
        op = gen.pick(rng, ["solve", "edit", "edit", "other", "fail", "scribble", "repeat", "struct", "struct", "partial", "twin", "optimize"])
        name, eng = gen.pick(rng, common.engines())
        ops.append(op)
        if op == "edit":
            r = edit(rng, spec, topo, ctx)
            if r:
                ops[-1] = "edit-" + r[0]
                spec = r[1]
        elif op == "struct":
            # other nodes, edges and trails from now on (rehearsed on a copy: only well conditioned ones are kept)
            state = rng.bit_generator.state
            trial = topo.copy()
            r = edits.structural_edit(rng, spec, trial)
            if r and gen.coords_distinct(r[1]):
                new = dict(copy.deepcopy(r[1]), shifts=[])
                trial.build_trails()
                if settles(new, trial):
                    after = rng.bit_generator.state
                    rng.bit_generator.state = state
                    edits.structural_edit(rng, spec, topo)
                    rng.bit_generator.state = after
                    topo.build_trails()
                    spec = new
                    ops[-1] = "struct-" + r[0]
                    ctx.event("structural_edits")
        elif op == "partial":
            before = common.topo_text(topo)
            common.engine("python")(topo, eta=eta, tmax=tmax, kmax=int(rng.integers(0, 4)))
            ctx.event("partial_calls")
            if common.topo_text(topo) != before:
                ctx.fail("a partial call changed the topology", spec=spec, ops=ops)
        elif op == "twin":
            # a copy leads a life of its own
            twin = topo.copy()
            if rng.random() < 0.5:
                topo, twin = twin, topo
            for e in twin.edges():
                twin.edge_attribute(e, "length" if twin.is_trail_edge(e) else "force", 3.0 * spec["gscale"])
            try:
                eng(twin, eta=eta, tmax=3)
            except ValueError:
                pass
            ctx.event("twins")
        elif op == "optimize":
            # an optimizer moves parameters: that is an edit
            params = optim.make_params(rng, spec, count=2, span=0.05)
            cons = optim.make_constraints(rng, spec, oracle.solve(spec, max_iter=90), count=1)
            x0, low, up = optim.bounds_of(spec, params)
            safe = True
            for _ in range(3):
                s = optim.apply_values(spec, params, low + (up - low) * rng.random(len(x0)))
                safe = safe and settles(s, topo)
            if not safe:
                ops[-1] = "skipped"
            else:
                twin = topo.copy()
                out, err, rec = optim.monitored(optim.optimizer(params, cons).solve, topo, iters=3, tmax=tmax, eta=1e-9 * spec["gscale"])
                new = optim.apply_values(spec, params, optim.topo_values(topo, params))
                if err is not None or not settles(new, topo):
                    topo = twin
                else:
                    spec = new
                    ctx.event("optimizations")
        elif op == "other":
            eng(other, eta=1e-10 * other_spec["gscale"], tmax=tmax)
        elif op == "fail":
            # a call that gives up must leave nothing behind either
            before = common.topo_text(topo)
            try:
                eng(topo, eta=0.0, tmax=2)
                ctx.event("did_not_fail")
            except ValueError:
                ctx.event("failed_calls")
            if common.topo_text(topo) != before:
                ctx.fail("a failed call changed the topology", spec=spec, ops=ops)
        elif op == "scribble":
            form = eng(topo, eta=eta, tmax=tmax)
            before = common.topo_text(topo)
            scribble(rng, form)
            ctx.event("forms_mutated")
            if common.topo_text(topo) != before:
                ctx.fail("writing to a form changed the topology it came from", spec=spec, ops=ops)
        elif op == "repeat":
            # with a loose threshold the answer depends on where the iteration starts: it must start afresh each time
            loose = float(gen.pick(rng, [1e-2, 1e-3, 1e-6]))
            a, b = (common.State(eng(topo, eta=loose, tmax=tmax)) for _ in range(2))
            ctx.event("repeats_bitwise")
            diff = common.same_state(a, b, 0.0, 0.0)
            if diff:
                ctx.fail("two identical calls in a row differ: " + diff, spec=spec, ops=ops)
            fresh = common.State(eng(gen.build(spec), eta=loose, tmax=tmax))
            diff = common.same_state(a, fresh, 1e-9 * spec["gscale"] * 10, 1e-9 * spec["fscale"] * 100)
            if diff and order_insensitive(spec):
                ctx.fail("a topology with a history differs from a fresh one: " + diff, spec=spec, ops=ops)

        # judge the current state
        before = common.topo_text(topo)
        form = eng(topo, eta=eta, tmax=tmax)
        ctx.event("topology_unchanged")
        if common.topo_text(topo) != before:
            ctx.fail("form-finding changed the topology", spec=spec, ops=ops)
        st = common.State(form)
        tx, tf = common.tolerances(spec, oracle.solve(spec, max_iter=90))
        fresh = common.State(eng(gen.build(spec), eta=eta, tmax=tmax))
        diff = common.same_state(st, fresh, tx, tf)
        ctx.event("forms_vs_fresh")
        if diff:
            ctx.fail("after {} the form differs from that of a fresh topology: {}".format(ops, diff), spec=spec, ops=ops)
        # an earlier form is a snapshot: later edits and calls do not touch it
        if alive is not None:
            ctx.event("snapshots_checked")
            diff = common.same_state(common.State(alive[0]), alive[1], 0.0, 0.0)
            if diff:
                ctx.fail("a form changed after it was returned: " + diff, spec=spec, ops=ops)
        alive = (form, st)
    ctx.seen(tuple(ops), common.spec_signature(spec))
    ctx.sample = common.spec_sample(spec, ops=ops)


def order_insensitive(spec):
    """Without indirect deviation edges the iteration has no memory at all."""
    seq = oracle.sequences(spec)
    return all(seq[e[0]] == seq[e[1]] for e in spec["edges"] if e[2] == "deviation")
