"""P02  The two form-finding engines agree."""
import copy

import numpy as np

import common
import gen
import oracle
from core import Skip
from props import p01

ID = "P02"
QUICK = 3000
THOROUGH = 40000
RULE = ("The same random topology is form-found by the pure Python and by the numpy engine, both run to a tight "
        "threshold, and every coordinate, force, signed length, reaction, load and support is compared; well conditioned "
        "structures are also compared to an independent reference solver. Degenerate inputs are included: coincident "
        "nodes joined by a deviation edge, zero residuals, planes parallel to a trail or through its start, plane flips. "
        "Distinct = variant x structure signature.")
MUST_OBSERVE = ["pairs_compared", "reference_compared", "both_raised", "thresholds", "single_iterations"]


def both(ctx, topo, spec, label, tol_x, tol_f, eta=1e-10, tmax=400, ref=None):
    states = []
    raised = []
    for name, eng in common.engines():
        try:
            states.append(common.State(eng(topo, tmax=tmax, eta=eta)))
            raised.append(None)
        except ValueError as e:
            raised.append(str(e))
    if any(raised):
        if not all(raised):
            ctx.fail("{}: one engine raises and the other returns: {}".format(label, raised), spec=spec)
        ctx.event("both_raised")
        return
    a, b = states
    for name, st in (("python", a), ("numpy", b)):
        if not st.finite():
            ctx.fail("{}: the {} engine returned non finite numbers".format(label, name), spec=spec, state=st.dump())
    diff = common.same_state(a, b, tol_x, tol_f, label + ": ")
    if diff:
        ctx.fail("engines disagree, " + diff, spec=spec, python=a.dump(), numpy=b.dump())
    ctx.event("pairs_compared")
    ctx.event("values_compared", 7 * len(a.nodes) + 2 * len(a.edges))
    if ref is not None:
        for name, st in (("python", a), ("numpy", b)):
            diff = common.compare_ref(st, ref, spec, tol_x, tol_f)
            if diff:
                ctx.fail("{} {}: {}".format(label, name, diff), spec=spec, state=st.dump())
        ctx.event("reference_compared", 2)
    ctx.seen(label, common.spec_signature(spec))
    ctx.sample = common.spec_sample(spec, label=label)


def case(ctx):
    rng = ctx.rng
    i = ctx.index % 20
    if i < 6:
        spec, ref = gen.good_spec(rng)
        tx, tf = common.tolerances(spec, ref)
        topo = gen.build(spec, mode=gen.pick(rng, ["keys", "points"]),
                         plane_mode=gen.pick(rng, ["Plane", "tuple"]))
        both(ctx, topo, spec, "plain", tx, tf, ref=ref)
    elif i == 6:
        # the length sign is opposed to where the plane is: the force state flips, the same way in both
        spec, ref = gen.good_spec(rng)
        for e in spec["edges"]:
            if e[4] is not None and rng.random() < 0.7:
                e[3] = -e[3]
        ref = oracle.solve(spec)
        if not gen.spec_ok(spec, ref) or not ref["planes_used"]:
            raise Skip()
        tx, tf = common.tolerances(spec, ref)
        both(ctx, gen.build(spec), spec, "plane flip", tx, tf, ref=ref)
    elif i == 7:
        # coincident nodes joined by a deviation edge: the edge has no direction, both engines ignore it
        spec, ref = gen.good_spec(rng, family=gen.pick(rng, ["arch", "tower"]), planes=False, shifts=False, indirect=False)
        pos = dict((n, p) for n, p in spec["nodes"])
        t = spec["trails"]
        a, b = t[0][0], t[1][0]
        if frozenset((a, b)) not in {frozenset(e[:2]) for e in spec["edges"]}:
            spec["edges"].append([a, b, "deviation", -0.5 * spec["fscale"], None])
        spec["nodes"] = [[n, (list(pos[b]) if n == a else p)] for n, p in spec["nodes"]]
        chk = oracle.solve(spec)
        others = [e for e in spec["edges"] if e[2] == "deviation" and set(e[:2]) != {a, b}]
        if chk["min_residual"] < 0.1 * spec["fscale"] or \
                any(np.linalg.norm(chk["xyz"][e[0]] - chk["xyz"][e[1]]) < 0.05 * spec["gscale"] for e in others):
            raise Skip()  # nodes that coincide up to rounding have no direction between them
        both(ctx, gen.build(spec), spec, "coincident", *common.tolerances(spec, ref, 1e-6))
    elif i == 8:
        # zero residual in front of a length or a plane
        spec, ref = gen.good_spec(rng, family="random", indirect=False, planes=False)
        touched = {n for e in spec["edges"] if e[2] == "deviation" for n in e[:2]}
        bare = [t for t in spec["trails"] if t[0] not in touched]
        if not bare:
            raise Skip()
        drop = set()
        for t in bare:
            for n in t[:int(rng.integers(1, len(t) + 1))]:
                if n in touched:
                    break
                drop.add(n)
                for e in spec["edges"]:
                    if e[2] == "trail" and n in e[:2] and rng.random() < 0.3:
                        e[4] = [gen.flist(rng.normal(size=3)), gen.flist(gen.unit(rng))]
        spec["loads"] = [q for q in spec["loads"] if q[0] not in drop]
        chk = oracle.solve(spec)
        if chk["min_plane_cos"] < 0.05 and chk["min_plane_cos"] > 0 or not chk["converged"]:
            raise Skip()
        if chk["max_coord"] > 1e4:
            raise Skip()
        both(ctx, gen.build(spec), spec, "zero residual", *common.tolerances(spec, ref, 1e-6))
    elif i == 9:
        # planes a trail cannot reach: parallel to it, or through its start; both fall back on the length
        spec = flat_spec(rng)
        ref = oracle.solve(strip_planes(spec))
        if not gen.spec_ok(strip_planes(spec), ref):
            raise Skip()
        tx, tf = common.tolerances(spec, ref)
        both(ctx, gen.build(spec), spec, "unreachable plane", tx, tf, ref=ref)
    elif i == 10:
        spec = p01.aux_spec(rng)
        topo = gen.build(spec, trails=False)
        topo.build_trails(auxiliary_trails=True)
        spec = p01.extend_with_aux(spec, topo)
        ref = oracle.solve(spec)
        if not gen.spec_ok(spec, ref):
            raise Skip()
        tx, tf = common.tolerances(spec, ref)
        both(ctx, topo, spec, "auxiliary", tx, tf, ref=ref)
    elif i == 11:
        spec, ref = gen.good_spec(rng)
        g = float(gen.pick(rng, [1e-4, 1e-3, 1e-2, 1e3, 1e5]))
        spec = gen.scaled(spec, g, float(gen.pick(rng, [1.0, 1e-4, 1e-6, 1e4])))
        ref = oracle.solve(spec)
        tx, tf = common.tolerances(spec, ref)
        both(ctx, gen.build(spec), spec, "units", tx, tf, ref=ref, eta=1e-10 * g)
    elif i == 12:
        spec, ref = gen.good_spec(rng, family=gen.pick(rng, ["random", "chain"]))
        if not gen.weak_trails(spec, rng):
            raise Skip()
        ref = oracle.solve(spec)
        tx, tf = common.tolerances(spec, ref)
        both(ctx, gen.build(spec), spec, "weak trail", tx, tf, ref=ref)
    elif i == 13:
        spec, ref = gen.good_spec(rng, family=gen.pick(rng, ["arch", "tower", "bridge"]), shifts=False, indirect=False)
        if not gen.close_origins(spec, rng):
            raise Skip()
        ref = oracle.solve(spec)
        if ref["min_residual"] < 0.1 * spec["fscale"] or ref["min_plane_cos"] < 0.15 or ref["plane_bad"]:
            raise Skip()
        tx, tf = common.tolerances(spec, ref)
        both(ctx, gen.build(spec), spec, "close origins", tx, tf, ref=ref)
    elif i in (14, 15):
        kind, spec, ref = gen.exotic(rng)
        both(ctx, gen.build(spec), spec, kind, *gen.exotic_tolerances(kind, spec, ref), ref=ref, eta=1e-10 * spec["gscale"])
    elif i == 16:
        # few iterations and a threshold near the travel of the last one: both return, or both raise
        for _ in range(30):
            spec = gen.raw_spec(rng, family=gen.pick(rng, ["random", "tower", "arch"]), deviation_scale=float(gen.pick(rng, [1.0, 3.0])),
                                planes=False)
            ref = oracle.solve(spec, max_iter=90)
            if gen.spec_ok(spec, ref) and ref["iters"] > 6:
                break
        else:
            raise Skip()
        topo = gen.build(spec)
        t = int(rng.integers(1, min(8, ref["iters"] - 2)))
        eta = float(gen.pick(rng, [0.15, 0.5, 0.9, 1.1, 2.0])) * ref["distances"][t]
        both(ctx, topo, spec, "threshold", *common.tolerances(spec, ref), eta=eta, tmax=t + 1)
        # a single iteration returns what it got to, before the indirect deviation edges come in
        once = oracle.solve(spec, max_iter=1)
        if once["min_residual"] > 0.05 * spec["fscale"]:
            both(ctx, topo, spec, "one iteration", *common.tolerances(spec, ref), eta=float(gen.pick(rng, [1e-6, 1e-12, 10.0])), tmax=1, ref=once)
            ctx.event("single_iterations")
        both(ctx, topo, spec, "few iterations", *common.tolerances(spec, ref), eta=1e9, tmax=int(rng.integers(2, 5)))
        ctx.event("thresholds")
    elif i == 17:
        # a trail edge of no length
        spec, ref = gen.good_spec(rng, planes=False, indirect=False)
        e = gen.pick(rng, [e for e in spec["edges"] if e[2] == "trail"])
        e[3] = 0.0
        ref = oracle.solve(spec)
        if not gen.spec_ok(spec, ref):
            raise Skip()
        both(ctx, gen.build(spec), spec, "no length", *common.tolerances(spec, ref))
    else:
        spec, ref = gen.good_spec(rng, max_trails=12, max_len=12)
        tx, tf = common.tolerances(spec, ref)
        both(ctx, gen.build(spec), spec, "large", tx, tf, ref=ref)


def flat_spec(rng):
    """A problem in the xy plane whose trails carry planes they can never reach."""
    while True:
        spec = gen.raw_spec(rng, planes=False)
        z = float(gen.pick(rng, [0.0, 0.0, 2.5]))
        spec["nodes"] = [[n, [p[0], p[1], z]] for n, p in spec["nodes"]]
        spec["loads"] = [[n, [q[0] + 0.7 * spec["fscale"], q[1], 0.0]] for n, q in spec["loads"]]
        if gen.spec_ok(spec, oracle.solve(spec, max_iter=90)):
            break
    for e in spec["edges"]:
        if e[2] == "trail" and rng.random() < 0.6:
            e[4] = [[0.0, 0.0, float(rng.normal())], [0.0, 0.0, float(gen.pick(rng, [1.0, -1.0, 4.0]))]]
    # planes through the start of a trail edge
    pos = dict((n, p) for n, p in spec["nodes"])
    for e in spec["edges"]:
        if e[2] == "trail" and e[4] is None and rng.random() < 0.5:
            a, b = gen.ordered(spec, e)
            if a in {t[0] for t in spec["trails"]}:
                e[4] = [list(pos[a]), gen.flist(gen.unit(rng))]
    return spec


def strip_planes(spec):
    spec = copy.deepcopy(spec)
    for e in spec["edges"]:
        e[4] = None
    return spec
