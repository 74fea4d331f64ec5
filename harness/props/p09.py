"""P09  Auxiliary trails take in every unassigned node and disturb nothing else."""
import copy

import numpy as np

import common
import gen
import oracle
from core import Skip
from props.p07 import check_trails

ID = "P09"
QUICK = 2000
THOROUGH = 30000
RULE = ("Random topologies with 0-60 extra nodes that no trail reaches (isolated or hanging from deviation edges), random "
        "auxiliary length and vector, built with auxiliary trails once or several times, with nodes added or auxiliary "
        "supports deleted in between and JSON round trips. Monitors: one two-node auxiliary trail per unassigned node, at "
        "the prescribed offset and length; every other node, edge and trail as before; no duplicates on rebuild; the form "
        "equals the reference equilibrium with the auxiliary trails included. Distinct = counts x history x signature.")
MUST_OBSERVE = ["auxiliary_trails_checked", "rebuilds", "forms_checked", "none_needed", "many_at_once", "settings_changed"]


def snapshot(topo):
    return ({n: (tuple(topo.node_coordinates(n)), tuple(topo.node_load(n))) for n in topo.nodes()},
            {tuple(e): (topo.edge_attribute(e, "type"), topo.edge_force(e), topo.edge_length_2(e)) for e in topo.edges()})


def add_free(rng, spec, topo, count, devs, offset):
    from compas_cem.elements import Node, DeviationEdge
    from compas_cem.loads import NodeLoad
    free = []
    for _ in range(count):
        k = max(topo.nodes()) + int(rng.integers(1, 5))
        p = gen.flist(np.round(spec["gscale"] * (np.array([25.0, 0.0, 0.0]) + 6 * rng.normal(size=3)), 3))
        if rng.random() < 0.2:
            # right where the auxiliary support of another node will be, or the other way around
            at = np.array(gen.pick(rng, spec["nodes"])[1])
            p = gen.flist(at + offset * gen.pick(rng, [1.0, -1.0]))
        topo.add_node(Node(k, p))
        spec["nodes"].append([k, p])
        q = gen.flist(np.round(spec["fscale"] * (np.array([0.0, 0.0, -1.0]) + 0.3 * rng.normal(size=3)), 4))
        topo.add_load(NodeLoad(k, q))
        spec["loads"].append([k, q])
        for _ in range(int(rng.integers(0, 3)) if devs else 0):
            other = gen.pick(rng, spec["nodes"][:-1])[0]
            if any(set(e[:2]) == {k, other} for e in spec["edges"]):
                continue
            u, v = (k, other) if rng.random() < 0.5 else (other, k)
            f = float(spec["fscale"] * rng.uniform(0.02, 0.4) * gen.pick(rng, [-1.0, 1.0]))
            topo.add_edge(DeviationEdge(u, v, force=f))
            spec["edges"].append([u, v, "deviation", f, None])
        free.append(k)
    return free


def check(ctx, topo, spec, before, free, aux, prescribed, vector, length, label):
    """aux: known auxiliary trails {node: aux node}; free: nodes that need one now. Updates the spec."""
    nodes0, edges0 = before
    d = np.array(vector, dtype=float)
    d = d / np.linalg.norm(d)
    got = {k: tuple(t) for k, t in topo.auxiliary_trails(keys=True)}
    if set(got) != set(aux) | set(free):
        ctx.fail("{}auxiliary trails at {} but needed at {}".format(label, sorted(got), sorted(set(aux) | set(free))), spec=spec)
    if topo.number_of_auxiliary_trails() != len(got):
        ctx.fail("{}number_of_auxiliary_trails() is {}".format(label, topo.number_of_auxiliary_trails()), spec=spec)
    if topo.auxiliary_trail_length != length or list(topo.auxiliary_trail_vector) != list(vector):
        ctx.fail("{}auxiliary length and vector are {} and {} after building and were {} and {}".format(
            label, topo.auxiliary_trail_length, topo.auxiliary_trail_vector, length, vector), spec=spec)
    new = set(topo.nodes()) - set(nodes0)
    if len(new) != len(free):
        ctx.fail("{}{} nodes were added for {} unassigned nodes".format(label, len(new), len(free)), spec=spec)
    # nothing that was there has changed
    nodes1, edges1 = snapshot(topo)
    for n, v in nodes0.items():
        if nodes1.get(n) != v:
            ctx.fail("{}node {} changed from {} to {}".format(label, n, v, nodes1.get(n)), spec=spec)
    for e, v in edges0.items():
        if edges1.get(e) != v:
            ctx.fail("{}edge {} changed from {} to {}".format(label, e, v, edges1.get(e)), spec=spec)
    if len(edges1) != len(edges0) + len(free):
        ctx.fail("{}{} edges were added for {} unassigned nodes".format(
            label, len(edges1) - len(edges0), len(free)), spec=spec)
    for n in free:
        t = got[n]
        if len(t) != 2 or n not in t:
            ctx.fail("{}auxiliary trail of node {} is {}".format(label, n, t), spec=spec)
        a = t[0] if t[1] == n else t[1]
        if a not in new:
            ctx.fail("{}auxiliary trail {} reuses the node {}".format(label, t, a), spec=spec)
        prescribed[a] = length
        want = np.array(nodes0[n][0]) + length * d
        if np.max(np.abs(np.array(topo.node_coordinates(a)) - want)) > 1e-9 * (1 + np.max(np.abs(want))):
            ctx.fail("{}auxiliary node {} is at {} and should be at {}".format(
                label, a, topo.node_coordinates(a), want), spec=spec)
        e = (n, a) if topo.has_edge(n, a) else (a, n)
        if not topo.has_edge(*e) or not topo.is_trail_edge(e) or topo.edge_length_2(e) != length:
            ctx.fail("{}auxiliary edge {} is not a trail edge of length {}".format(label, e, length), spec=spec)
        if any(topo.node_load(a)):
            ctx.fail("{}auxiliary node {} is loaded".format(label, a), spec=spec)
        spec["nodes"].append([a, list(topo.node_coordinates(a))])
        spec["edges"].append([e[0], e[1], "trail", length, None])
        spec["supports"].append(a)
        spec["trails"].append([n, a])
        aux[n] = a
        ctx.event("auxiliary_trails_checked")
    want = {frozenset((n, a)) for n, a in aux.items()}
    if {frozenset(e) for e in topo.auxiliary_trail_edges()} != want:
        ctx.fail("{}auxiliary_trail_edges() are {}".format(label, list(topo.auxiliary_trail_edges())), spec=spec)
    for e in topo.edges():
        if topo.is_auxiliary_trail_edge(tuple(e)) != (frozenset(e) in want):
            ctx.fail("{}is_auxiliary_trail_edge({}) is wrong".format(label, e), spec=spec)
    # those of before keep the length they were made with
    for n, a in aux.items():
        e = (n, a) if topo.has_edge(n, a) else (a, n)
        if topo.edge_length_2(e) != prescribed[a]:
            ctx.fail("{}auxiliary edge {} has length {} and was made with {}".format(label, e, topo.edge_length_2(e), prescribed[a]), spec=spec)
    check_trails(ctx, topo, spec, label)


def case(ctx):
    rng = ctx.rng
    spec = gen.raw_spec(rng, planes=False, shifts=False, max_trails=4, max_len=4)
    spec = copy.deepcopy(spec)
    topo = gen.build(spec, trails=False)
    vector = [1.0, 1.0, 1.0]
    length = -1.0
    if rng.random() < 0.7:
        vector = gen.flist(np.round(gen.unit(rng) * float(gen.pick(rng, [1.0, 0.2, 5.0])), 4))
        topo.auxiliary_trail_vector = list(vector)
    if rng.random() < 0.7:
        length = float(np.round(spec["gscale"] * rng.uniform(0.3, 2.0), 4) * gen.pick(rng, [-1.0, 1.0]))
        topo.auxiliary_trail_length = length
    if topo.auxiliary_trail_length != length or list(topo.auxiliary_trail_vector) != list(vector):
        ctx.fail("auxiliary length or vector read back as {} and {}".format(
            topo.auxiliary_trail_length, topo.auxiliary_trail_vector), spec=spec)
    aux = {}
    prescribed = {}
    history = []
    rounds = int(rng.integers(1, 5))
    for i in range(rounds):
        free = []
        if i and rng.random() < 0.4:
            # other settings from now on
            length = float(np.round(spec["gscale"] * rng.uniform(0.3, 2.0), 4) * gen.pick(rng, [-1.0, 1.0]))
            vector = gen.flist(np.round(gen.unit(rng) * float(gen.pick(rng, [1.0, 0.2, 5.0])), 4))
            topo.auxiliary_trail_length = length
            topo.auxiliary_trail_vector = list(vector)
            history.append(("settings", 0))
            ctx.event("settings_changed")
        act = gen.pick(rng, ["free", "free", "none", "delete"]) if i else gen.pick(rng, ["free", "free", "free", "none"])
        if act == "free":
            many = ctx.index % 12 == 7 and i == 0
            free = add_free(rng, spec, topo, int((rng.integers(20, 60) if rng.random() < 0.8 else rng.integers(100, 400)) if many else rng.integers(1, 5)), devs=bool(rng.random() < 0.7),
                            offset=length * np.array(vector) / np.linalg.norm(vector))
            ctx.event("many_at_once", int(many))
        elif act == "delete" and aux:
            n = gen.pick(rng, sorted(aux))
            a = aux.pop(n)
            topo.delete_node(a)
            spec["nodes"] = [x for x in spec["nodes"] if x[0] != a]
            spec["edges"] = [e for e in spec["edges"] if a not in e[:2]]
            spec["supports"] = [x for x in spec["supports"] if x != a]
            spec["trails"] = [t for t in spec["trails"] if t != [n, a]]
            free = [n]
        history.append((act, len(free)))
        if free and rng.random() < 0.3:
            # not without being asked to
            try:
                topo.build_trails()
            except AssertionError:
                ctx.event("refused_without_auxiliary")
            else:
                ctx.fail("nodes {} are in no trail, and build_trails took them".format(free), spec=spec)
        before = snapshot(topo)
        topo.build_trails(auxiliary_trails=True)
        ctx.event("rebuilds")
        if not free:
            ctx.event("none_needed")
        check(ctx, topo, spec, before, free, aux, prescribed, vector, length, "after {}: ".format(history))
        if rng.random() < 0.3:
            topo.build_trails()
            before = snapshot(topo)
            check(ctx, topo, spec, before, [], aux, prescribed, vector, length, "after {} and a plain rebuild: ".format(history))
            history.append(("plain", 0))
        if rng.random() < 0.2:
            from compas_cem.diagrams import TopologyDiagram
            topo = TopologyDiagram.from_jsonstring(topo.to_jsonstring()) if hasattr(topo, "to_jsonstring") \
                else TopologyDiagram.from_data(topo.to_data())
            before = snapshot(topo)
            check(ctx, topo, spec, before, [], aux, prescribed, vector, length, "after {} and JSON: ".format(history))
            history.append(("json", 0))
        ref = oracle.solve(spec, max_iter=120)
        if gen.spec_ok(spec, ref):
            tx, tf = common.tolerances(spec, ref)
            for name, eng in common.engines():
                st = common.State(eng(topo, eta=1e-10 * spec["gscale"], tmax=300))
                diff = common.compare_ref(st, ref, spec, tx, tf)
                ctx.event("forms_checked")
                if diff:
                    ctx.fail("{} after {}: {}".format(name, history, diff), spec=spec)
        ctx.seen(tuple(history), len(aux), common.spec_signature(spec))
    ctx.sample = common.spec_sample(spec, history=history, auxiliary=len(aux))
