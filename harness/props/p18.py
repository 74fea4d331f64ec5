"""P18  A constraint costs its weight times the squared distance to its target."""
import numpy as np

import common
import gen
import optim
import oracle
from core import Skip

ID = "P18"
QUICK = 3000
THOROUGH = 60000
RULE = ("All eight constraint types with random targets (compas geometry and plain lists), weights and keys, evaluated on "
        "equilibrium states computed by both engines and on synthetic states (targets met exactly, closest point at either "
        "end of a polyline, edges aligned, opposed or skew to the target direction, far away). The penalty must equal an "
        "independent geometric computation, scale with the weight, vanish on the target, and leave the state alone. "
        "Distinct = type x geometry form x state source x regime.")
MUST_OBSERVE = ["point", "line", "plane", "polyline", "reaction", "trail_force", "length", "direction", "on_target",
                "engine_states", "unusual_weights", "unreachable_lengths", "unusual_vectors", "short_edges"]


def state_dict(st, edges, array):
    conv = np.array if array else list
    return {"node_xyz": {k: conv([float(c) for c in p]) for k, p in st["xyz"].items()},
            "reaction_forces": {k: conv([float(c) for c in p]) for k, p in st["reaction"].items()},
            "trail_forces": {e: st["trail_force"][frozenset(e)] for e in edges if frozenset(e) in st["trail_force"]},
            "trail_directions": {}}


def close(a, b, scale):
    return abs(a - b) <= 1e-9 * max(abs(b), 1e-6 * scale)


def on_target(rng, con, st):
    """Move the state so that the constraint is met exactly."""
    kind, key, target, w = con
    if kind == "point":
        st["xyz"][key] = np.array(target)
    elif kind == "line":
        a, b = np.array(target[0]), np.array(target[1])
        st["xyz"][key] = a + (b - a) * rng.uniform(-3, 3)
    elif kind == "plane":
        n = np.array(target[1])
        v = rng.normal(size=3)
        st["xyz"][key] = np.array(target[0]) + v - n * (v @ n) / (n @ n)
    elif kind == "polyline":
        i = int(rng.integers(len(target) - 1))
        a, b = np.array(target[i]), np.array(target[i + 1])
        st["xyz"][key] = a + (b - a) * rng.random()
    elif kind == "reaction":
        st["reaction"][key] = np.array(target)
    elif kind == "trail_force":
        st["trail_force"][frozenset(key)] = target
    elif kind == "length":
        st["xyz"][key[1]] = st["xyz"][key[0]] + target * gen.unit(rng)
    else:
        st["xyz"][key[1]] = st["xyz"][key[0]] + np.array(target) / np.linalg.norm(target) * rng.uniform(0.2, 3) * gen.pick(rng, [-1.0, 1.0])


def case(ctx):
    rng = ctx.rng
    spec, ref = gen.good_spec(rng, max_trails=4, max_len=4)
    kinds = [optim.CONSTRAINTS[ctx.index % 8]] if rng.random() < 0.7 else None
    cons = optim.make_constraints(rng, spec, ref, count=4, kinds=kinds, spread=float(gen.pick(rng, [0.05, 0.5, 3.0, 3.0, 1e-4, 1e3, 1e5])))
    for con in cons:
        if rng.random() < 0.2:
            con[3] = float(gen.pick(rng, [0.0, 1e-9, 1e-3, 1e3, 1e9, 2, -1.5, -1e-3]))
            ctx.event("unusual_weights")
        if con[0] == "polyline" and rng.random() < 0.15:
            m = int(gen.pick(rng, [30, 80, 200]))
            start = np.array(con[2][0]) + spec["gscale"] * rng.normal(size=3) * 3.0
            con[2] = [gen.flist(p) for p in start + spec["gscale"] * 0.3 * np.cumsum(rng.normal(size=(m, 3)), axis=0)]
            ctx.event("long_polylines")
        if con[0] == "length" and rng.random() < 0.3:
            con[2] *= float(gen.pick(rng, [-1.0, 0.0, 1e-3, 1e4]))
            ctx.event("unreachable_lengths")
        if con[0] == "direction" and rng.random() < 0.3:
            con[2] = [float(c) * s for s in [float(gen.pick(rng, [1e-5, 1e-9, 1e4]))] for c in con[2]]
            ctx.event("unusual_vectors")
    topo = gen.build(spec)
    edges = [tuple(e) for e in topo.edges()]
    for con in cons:
        kind = con[0]
        geo = gen.pick(rng, ["compas", "plain"])
        obj = optim.constraint_object(con, geo)
        if obj.key() != con[1] or obj.weight != con[3]:
            ctx.fail("{} reads back key {} and weight {}".format(kind, obj.key(), obj.weight), constraint=con)
        sources = []
        st = optim.ref_state(ref)
        sources.append(("reference", st, None))
        # synthetic: random positions and forces
        syn = {"xyz": {k: p + spec["gscale"] * float(gen.pick(rng, [0.3, 2.0, 20.0])) * rng.normal(size=3) for k, p in ref["xyz"].items()},
               "reaction": {k: spec["fscale"] * rng.normal(size=3) for k in ref["reaction"]},
               "trail_force": {k: float(spec["fscale"] * rng.normal()) for k in ref["trail_force"]}}
        sources.append(("synthetic", syn, None))
        if kind in ("direction", "length"):
            # a very short edge
            tiny = {"xyz": dict(syn["xyz"]), "reaction": dict(syn["reaction"]), "trail_force": dict(syn["trail_force"])}
            tiny["xyz"][con[1][1]] = tiny["xyz"][con[1][0]] + spec["gscale"] * float(gen.pick(rng, [1e-3, 1e-5, 1e-7])) * gen.unit(rng)
            sources.append(("short_edge", tiny, None))
            ctx.event("short_edges")
        met = {"xyz": dict(syn["xyz"]), "reaction": dict(syn["reaction"]), "trail_force": dict(syn["trail_force"])}
        if kind != "length" or con[2] > 0.0:
            on_target(rng, con, met)
            sources.append(("on_target", met, None))
        for what, s, _ in sources:
            want = optim.penalty_of(con, s)
            d = state_dict(s, edges, array=bool(rng.random() < 0.5))
            before = common.canonical(d)
            got = float(obj.penalty(d))
            ctx.event(kind)
            scale = abs(con[3]) * max(spec["gscale"], spec["fscale"]) ** 2
            if what == "on_target":
                ctx.event("on_target")
                size = 1.0 + max(float(np.max(np.abs(p))) for p in s["xyz"].values())
                if not abs(got) <= 1e-18 * abs(con[3]) * size ** 2 * 1e4 + 1e-24:
                    ctx.fail("{} is met exactly but costs {}".format(kind, got), constraint=con, geometry=geo)
            elif not close(got, want, scale):
                ctx.fail("{} ({}) costs {} and should cost {}".format(kind, what, got, want), constraint=con, geometry=geo,
                         state=common.canonical(d)[:2000])
            if common.canonical(d) != before:
                ctx.fail("{} changed the state it was evaluated on".format(kind), constraint=con)
            if float(obj.penalty(d)) != got:
                ctx.fail("{} costs something else the second time".format(kind), constraint=con)
            # linear in the weight, and one by default
            c2 = [con[0], con[1], con[2], con[3] * 3.5]
            if not close(float(optim.constraint_object(c2, geo).penalty(d)), 3.5 * got, scale):
                ctx.fail("{} does not scale with its weight".format(kind), constraint=con)
            regime = what
            if kind == "polyline":
                p = np.array(s["xyz"][con[1]])
                pts = [np.array(x) for x in con[2]]
                q = min((optim.closest_on_segment(p, a, b) for a, b in zip(pts[:-1], pts[1:])), key=lambda v: (p - v) @ (p - v))
                regime += "-end" if min(np.linalg.norm(q - pts[0]), np.linalg.norm(q - pts[-1])) < 1e-12 else "-mid"
            ctx.seen(kind, geo, regime, len(con[2]) if kind == "polyline" else 0, int(np.floor(np.log10(abs(want) + 1e-30))),
                     con[3] == 1.0)
    # states that the engines produce
    from compas_cem.equilibrium.force import equilibrium_state
    from compas_cem.equilibrium.force_numpy import equilibrium_state_numpy
    for name, f in (("python", equilibrium_state), ("numpy", equilibrium_state_numpy)):
        d = f(topo, tmax=300, eta=1e-11 * spec["gscale"])
        for con in cons:
            # the trail forces are stored per stored edge
            want = optim.penalty_of(con, optim.ref_state(ref))
            got = float(optim.constraint_object(con, gen.pick(rng, ["compas", "plain"])).penalty(d))
            ctx.event("engine_states")
            g, f_ = spec["gscale"], max(spec["fscale"], ref["max_residual"])
            slack = abs(con[3]) * (1e-7 * max(g, f_, 1.0)) * (np.sqrt(max(want / (con[3] or 1.0), 0)) + 1e-7 * max(g, f_, 1.0))
            if not abs(got - want) <= slack + 1e-9 * abs(want):
                ctx.fail("{} on the state of the {} engine costs {} and should cost {}".format(con[0], name, got, want),
                         constraint=con, spec=spec)
            ctx.seen(con[0], "engine", name)
    ctx.sample = {"constraints": cons[:2], "family": spec["family"]}
