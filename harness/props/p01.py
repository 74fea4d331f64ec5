"""P01  Every returned form is in static equilibrium, node by node and as a whole."""
import copy

import numpy as np

import common
import gen
import oracle
from core import Skip

ID = "P01"
QUICK = 1400
THOROUGH = 20000
RULE = ("Random multi-trail structures (chains, arches, towers, bridges, random graphs; mixed tension and compression, "
        "direct and indirect deviation edges, planes, shifted trails, auxiliary trails, unloaded trails, very large "
        "structures, hubs, whole numbers, glancing and far planes), each form-found by both engines. A case is non-trivial when a form came back and every node's "
        "force sum was evaluated; distinct = trail lengths x direct/indirect counts x signs x planes x loads x shifts.")
MUST_OBSERVE = ["nodes_balanced", "global_balances", "forms_python", "forms_numpy"]


def settings(rng, spec, ref):
    eta = float(gen.pick(rng, [1e-6, 1e-6, 1e-8, 1e-10, 1e-4]))
    tmax = int(gen.pick(rng, [100, 200, 400]))
    return eta, tmax


def run_spec(ctx, spec, eta, tmax, label, must_return=True, topo=None, **kw):
    if topo is None:
        topo = gen.build(spec, mode=gen.pick(ctx.rng, ["keys", "points"]) if gen.coords_distinct(spec) else "keys")
    for name, eng in common.engines():
        try:
            form = eng(topo, tmax=tmax, eta=eta, **kw)
        except ValueError:
            if must_return:
                raise
            ctx.event("not_converged")
            continue
        ctx.event("forms_" + name)
        st = common.State(form)
        if set(st.nodes) != {n for n, _ in spec["nodes"]}:
            ctx.fail("{}: the form has other nodes than the topology".format(label), spec=spec)
        common.check_equilibrium(ctx, st, spec, eta, "{} {}: ".format(label, name))
    ctx.seen(label, common.spec_signature(spec))
    ctx.sample = common.spec_sample(spec, label=label, eta=eta)


def case(ctx):
    rng = ctx.rng
    i = ctx.index % 20
    if i in (0, 1, 2, 3, 4):
        spec, ref = gen.good_spec(rng)
        eta, tmax = settings(rng, spec, ref)
        run_spec(ctx, spec, eta, tmax, "plain")
    elif i == 5:
        # stress: many trails, long trails
        spec, ref = gen.good_spec(rng, max_trails=14, max_len=14)
        run_spec(ctx, spec, 1e-8, 300, "large")
    elif i == 6:
        # hostile: no conditioning filter at all; whatever is returned must balance
        spec = gen.raw_spec(rng, deviation_scale=float(gen.pick(rng, [1.0, 3.0, 8.0])))
        run_spec(ctx, spec, 1e-6, 100, "hostile", must_return=False)
    elif i == 7:
        # strong indirect forces: slow convergence
        for _ in range(60):
            spec = gen.raw_spec(rng, family=gen.pick(rng, ["random", "tower"]), deviation_scale=3.0)
            ref = oracle.solve(spec, max_iter=300)
            if gen.spec_ok(spec, ref, 280) and ref["iters"] > 12:
                break
        else:
            raise Skip()
        run_spec(ctx, spec, 1e-7, 600, "slow")
    elif i == 8:
        # no indirect edges: a single pass is exact
        spec, ref = gen.good_spec(rng, indirect=False)
        run_spec(ctx, spec, 1e-6, int(gen.pick(rng, [1, 2, 3])), "single pass")
    elif i == 9:
        spec = aux_spec(rng)
        topo = gen.build(spec, trails=False)
        topo.build_trails(auxiliary_trails=True)
        spec = extend_with_aux(spec, topo)
        run_spec(ctx, spec, 1e-6, 200, "auxiliary", must_return=False, topo=topo)
    elif i == 10:
        # unloaded heads: the trail force is zero until the first load
        spec, ref = gen.good_spec(rng, family="random", indirect=False, planes=False)
        touched = {n for e in spec["edges"] if e[2] == "deviation" for n in e[:2]}
        bare = [t for t in spec["trails"] if t[0] not in touched]
        if not bare:
            raise Skip()
        drop = set()
        for t in bare:
            for n in t[:int(rng.integers(1, len(t) + 1))]:
                if n in touched:
                    break
                drop.add(n)
        spec["loads"] = [q for q in spec["loads"] if q[0] not in drop]
        run_spec(ctx, spec, 1e-6, 100, "unloaded head")
    elif i == 11:
        # loads on supports, duplicated load assignment (the last one wins), no loads but deviation forces
        spec, ref = gen.good_spec(rng)
        have = {q[0] for q in spec["loads"]}
        for s in spec["supports"]:
            spec["loads"] = [q for q in spec["loads"] if q[0] != s]
            spec["loads"].append([s, gen.flist(spec["fscale"] * rng.normal(size=3))])
        run_spec(ctx, spec, 1e-8, 200, "loaded supports")
    elif i == 12:
        # through the optimiser's engine options: verbose and callback do not change the outcome
        spec, ref = gen.good_spec(rng)
        run_spec(ctx, spec, 1e-8, 200, "verbose", verbose=True, callback=lambda: None)
    elif i == 13:
        # other units: the whole problem scaled in length and force
        spec, ref = gen.good_spec(rng)
        g = float(gen.pick(rng, [1e-4, 1e-3, 1e-2, 1e3, 1e5]))
        spec = gen.scaled(spec, g, float(gen.pick(rng, [1.0, 1e-3, 1e3])))
        run_spec(ctx, spec, 1e-8 * g, 300, "units")
    elif i == 14:
        # trails that carry next to nothing beside trails that carry a lot
        spec, ref = gen.good_spec(rng, family=gen.pick(rng, ["random", "chain"]))
        if not gen.weak_trails(spec, rng):
            raise Skip()
        run_spec(ctx, spec, 1e-8, 300, "weak trail")
    elif i == 15:
        # a very short deviation edge
        spec, ref = gen.good_spec(rng, family=gen.pick(rng, ["arch", "tower", "bridge"]), shifts=False)
        if not gen.close_origins(spec, rng):
            raise Skip()
        run_spec(ctx, spec, 1e-8, 300, "close origins", must_return=False)
    elif i in (16, 17, 18):
        # hubs, long trails, many trails, whole numbers, glancing, far and near planes
        kind, spec, ref = gen.exotic(rng)
        run_spec(ctx, spec, 1e-8 * spec["gscale"], 300, kind)
    else:
        # extreme magnitudes
        spec, ref = gen.good_spec(rng)
        s = float(gen.pick(rng, [1e-4, 1e4, 1e6]))
        spec["loads"] = [[n, gen.flist(s * np.array(q))] for n, q in spec["loads"]]
        for e in spec["edges"]:
            if e[2] == "deviation":
                e[3] = e[3] * s
        run_spec(ctx, spec, 1e-8, 200, "magnitude")


def aux_spec(rng):
    """A structure where some nodes are held by deviation edges only."""
    spec, ref = gen.good_spec(rng, shifts=False, planes=False)
    spec = copy.deepcopy(spec)
    keys = [n for n, _ in spec["nodes"]]
    used = set(keys)
    k = max(keys) + 1
    for j in range(int(rng.integers(1, 4))):
        near = gen.pick(rng, keys)
        p = np.array(dict((n, q) for n, q in spec["nodes"])[near]) + spec["gscale"] * (2.0 * gen.unit(rng) + 0.3 * rng.normal(size=3))
        spec["nodes"].append([k, gen.flist(np.round(p, 4))])
        others = [near] + [gen.pick(rng, keys) for _ in range(2)]
        for o in dict.fromkeys(others):
            spec["edges"].append([k, o, "deviation", float(np.round(spec["fscale"] * rng.uniform(-0.1, 0.1), 6)), None])
        if rng.random() < 0.7:
            spec["loads"].append([k, gen.flist(spec["fscale"] * rng.normal(size=3))])
        k += 1
    return spec


def extend_with_aux(spec, topo):
    spec = copy.deepcopy(spec)
    known = {n for n, _ in spec["nodes"]}
    for n in topo.nodes():
        if n not in known:
            spec["nodes"].append([n, gen.flist(topo.node_coordinates(n))])
    spec["trails"] = [list(t) for t in topo.trails()]
    have = {frozenset(e[:2]) for e in spec["edges"]}
    for (u, v) in topo.edges():
        if frozenset((u, v)) not in have:
            spec["edges"].append([u, v, "trail", topo.edge_length_2((u, v)), None])
    spec["supports"] = [t[-1] for t in spec["trails"]]
    return spec
