"""P21  The optimizer moves what it was told to move, as far as it was told, and nothing else."""
import numpy as np

import common
import gen
import optim
import oracle
from core import Skip

ID = "P21"
QUICK = 700
THOROUGH = 12000
CHUNK = 2
RULE = ("Random problems with signed, zero, open and missing bounds, solved 1-3 times in a row on one topology by all six "
        "algorithms (AD and FD). A monitor at the solver boundary sees the box and every trial; both must be start -|low| .. "
        "start +|up| with the start values the topology held when solve() was called. Afterwards every attribute of the "
        "topology that is not a parameter, its trails, and the edges and supports of the form are what they were. Constraints "
        "far out of reach drive the parameters against their bounds. Distinct = algorithm x bound kinds x problem signature.")
MUST_OBSERVE = ["solves", "boxes_checked", "trials_checked", "at_bound", "open_low", "open_up", "negative_bounds", "zero_bounds",
                "pinned", "attributes_checked", "successive_solves", "FD", "plane_parameters"] + optim.PARAMS


def snapshot(topo):
    nodes = {n: {k: topo.node_attribute(n, k) for k in ("x", "y", "z", "qx", "qy", "qz", "rx", "ry", "rz", "type")} for n in topo.nodes()}
    edges = {tuple(e): {k: topo.edge_attribute(e, k) for k in ("type", "length", "force", "plane")} for e in topo.edges()}
    return {"nodes": nodes, "edges": edges, "trails": {k: tuple(v) for k, v in topo.trails(keys=True)},
            "sequences": {n: topo.node_sequence(n) for n in topo.nodes()}, "supports": sorted(topo.support_nodes())}


ATTR = {"origin_x": "x", "origin_y": "y", "origin_z": "z", "load_x": "qx", "load_y": "qy", "load_z": "qz",
        "deviation": "force", "trail": "length"}


def case(ctx):
    rng = ctx.rng
    bounds = gen.pick(rng, [True, True, "open"])
    units = None
    if rng.random() < 0.3:
        # millimetres and newtons, kilometres and meganewtons
        units = (float(gen.pick(rng, [1e-3, 1.0, 1e3, 1e5, 1e6])), float(gen.pick(rng, [1e-3, 1.0, 1e3, 1e6])))
        ctx.event("other_units")
    spec, ref, params, cons = optim.good_problem(rng, bounds=bounds, units=units, spread=float(gen.pick(rng, [0.2, 0.2, 5.0, 20.0])))
    if rng.random() < 0.25:
        # pinned parameters: a zero span
        p = params[int(rng.integers(len(params)))]
        p[2], p[3] = 0.0, 0.0
    opt = optim.optimizer(params, cons, gen.pick(rng, ["compas", "plain"]))
    topo = gen.build(spec)
    g = spec["gscale"]
    unit = np.array([g if p[0].startswith("origin") or p[0] == "trail" else spec["fscale"] for p in params])
    start = spec
    for round_ in range(int(gen.pick(rng, [1, 1, 2, 3]))):
        algorithm = gen.pick(rng, optim.ALGORITHMS)
        grad = "FD" if rng.random() < 0.25 else "AD"
        kw = dict(algorithm=algorithm, grad=grad, iters=int(gen.pick(rng, [2, 5, 12, 30])), eps=None, kappa=gen.pick(rng, [None, 1e-8]),
                  tmax=300, eta=1e-10 * g)
        info = dict(spec=start, params=params, cons=cons, kw=kw, round=round_)
        before = snapshot(topo)
        x0, low, up = optim.bounds_of(start, params)
        out, err, rec = optim.monitored(opt.solve, topo, **kw)
        if optim.diverged(err, rec) and (bounds == "open" or round_ > 0):
            ctx.event("diverged")
            raise Skip()
        if err is not None:
            ctx.fail("{} raised {!r}".format(algorithm, err), **info)
        ctx.event("solves")
        ctx.event(grad)
        r = rec[-1]
        tol = 1e-12 * (np.abs(x0) + unit)
        if r["dims"] != len(params) or len(r["x0"]) != len(params):
            ctx.fail("the solver works on {} variables, there are {} parameters".format(r["dims"], len(params)), **info)
        if not np.all(np.abs(r["x0"] - x0) <= tol):
            ctx.fail("the search starts at {} instead of {}".format(r["x0"].tolist(), x0.tolist()), **info)
        blow = r["low"] if r["low"] is not None else np.full(len(x0), -np.inf)
        bup = r["up"] if r["up"] is not None else np.full(len(x0), np.inf)
        for name, have, want in (("lower", blow, low), ("upper", bup, up)):
            ctx.event("boxes_checked")
            bad = ~((have == want) | (np.abs(have - want) <= tol))
            if bad.any():
                i = int(np.argmax(bad))
                ctx.fail("the {} bound of {} is {} instead of {}".format(name, params[i], have[i], want[i]), **info)
        slack = 1e-5 * unit
        trials = [e[0] for e in r["evals"]] + ([np.array(opt.x_opt, dtype=float)] if opt.x_opt is not None else [])
        trials.append(optim.topo_values(topo, params))
        for x in trials:
            ctx.event("trials_checked")
            if not (np.all(x >= low - slack) and np.all(x <= up + slack)):
                ctx.fail("{} tried {}, out of the box {} .. {}".format(algorithm, x.tolist(), low.tolist(), up.tolist()), **info)
        end = trials[-1]
        ctx.event("at_bound", int(np.any((np.abs(end - low) < 1e-6 * unit) | (np.abs(end - up) < 1e-6 * unit))))
        for p, a, b in zip(params, x0, end):
            ctx.event(p[0])
            ctx.event("plane_parameters", int(p[0] == "trail" and before["edges"][tuple(p[1])]["plane"] is not None))
            ctx.event("open_low", int(p[2] is None))
            ctx.event("open_up", int(p[3] is None))
            ctx.event("negative_bounds", int((p[2] or 0) < 0 or (p[3] or 0) < 0))
            ctx.event("zero_bounds", int(p[2] == 0.0))
            if p[2] == 0.0 and p[3] == 0.0:
                ctx.event("pinned")
                if not abs(b - a) <= 1e-9 * (abs(a) + 1):
                    ctx.fail("{} was pinned and moved from {} to {}".format(p, a, b), **info)

        # nothing else changed
        after = snapshot(topo)
        for i, p in enumerate(params):
            where = before["nodes"][p[1]] if p[1] in before["nodes"] else before["edges"][tuple(p[1])]
            where[ATTR[p[0]]] = end[i]
        for part in ("nodes", "edges"):
            if set(before[part]) != set(after[part]):
                ctx.fail("the {} of the topology changed".format(part), **info)
            for k in before[part]:
                for name in before[part][k]:
                    ctx.event("attributes_checked")
                    a, b = before[part][k][name], after[part][k][name]
                    if name == "plane":
                        a, b = common.canonical(a), common.canonical(b)
                    elif isinstance(a, float) and b is not None:
                        a, b = float(a), float(b)
                    if a != b:
                        ctx.fail("{} of {} changed from {} to {}, and it is not a parameter".format(name, k, a, b), **info)
        for part in ("trails", "sequences", "supports"):
            if before[part] != after[part]:
                ctx.fail("the {} of the topology changed".format(part), **info)
        st = common.State(out)
        if {frozenset(e) for e in st.edges} != {frozenset(e) for e in before["edges"]} or set(st.nodes) != set(before["nodes"]) or \
                sorted(st.supports) != before["supports"]:
            ctx.fail("the form has other nodes, edges or supports than the topology", **info)
        uf, ul = st.uforce(), st.ulength()
        # an open bound may let an origin go very far
        digits = 1e-14 * max(float(np.max(np.abs(p))) for p in st.xyz.values())
        for e, at in after["edges"].items():
            if at["type"] == "deviation" and not abs(uf[frozenset(e)] - float(at["force"])) <= 1e-9 * spec["fscale"]:
                ctx.fail("deviation edge {} carries {} in the form and {} in the topology".format(e, uf[frozenset(e)], at["force"]), **info)
            if at["type"] == "trail" and at["plane"] is None and not abs(abs(ul[frozenset(e)]) - abs(float(at["length"]))) <= 1e-6 * g + digits:
                ctx.fail("trail edge {} has length {} in the form and {} in the topology".format(e, ul[frozenset(e)], at["length"]), **info)
        ctx.event("successive_solves", int(round_ > 0))
        ctx.seen(algorithm, grad, round_, tuple((p[0], p[2] is None, p[3] is None) for p in params), optim.problem_signature(spec, params, cons))
        start = optim.apply_values(start, params, end)
        if opt.x_opt is None:
            break
    ctx.sample = {"params": params, "constraints": [c[0] for c in cons], "end": end}
