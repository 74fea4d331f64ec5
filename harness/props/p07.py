"""P07  Trails partition the nodes; ill-formed topologies are refused."""
import common
import gen
import numpy as np
import oracle
from core import Skip, Violation

ID = "P07"
QUICK = 2600
THOROUGH = 40000
RULE = ("Random topologies whose trails are known by construction (1-9 trails, 2-12 nodes, random keys, edge orientation, "
        "insertion order, key- or point-based construction, arbitrary deviation edges, extra unloaded nodes) plus one "
        "random corruption each (missing support, stray node, cut, bridged, forked or looped trail, second support, no "
        "trail edges). The monitors compare every trail query with the construction, and require the corrupted diagram "
        "to be refused by build_trails or by the engines. Distinct = corruption x structure signature.")
MUST_OBSERVE = ["trails_checked", "refused", "repaired_and_built", "long_trails", "many_trails"]


def check_trails(ctx, topo, spec, label=""):
    """Everything the topology says about its trails against the construction."""
    want = {t[0]: tuple(t) for t in spec["trails"]}
    got = {k: tuple(t) for k, t in topo.trails(keys=True)}
    if got != want:
        ctx.fail("{}trails are {} and should be {}".format(label, got, want), spec=spec)
    if sorted(tuple(t) for t in topo.trails()) != sorted(want.values()):
        ctx.fail("{}trails() disagrees with trails(keys=True)".format(label), spec=spec)
    for k, t in want.items():
        if tuple(topo.trail(k)) != t:
            ctx.fail("{}trail({}) is {} and should be {}".format(label, k, topo.trail(k), t), spec=spec)
        ctx.event("trails_checked")
    if topo.number_of_trails() != len(want) or not topo.has_trails():
        ctx.fail("{}number_of_trails() is {} of {}".format(label, topo.number_of_trails(), len(want)), spec=spec)
    nodes = [n for t in topo.trails() for n in t]
    if len(nodes) != len(set(nodes)) or set(nodes) != set(topo.nodes()):
        ctx.fail("{}the trails do not partition the nodes".format(label), spec=spec)
    if sorted(topo.origin_nodes()) != sorted(want):
        ctx.fail("{}origin nodes are {} and should be {}".format(label, sorted(topo.origin_nodes()), sorted(want)), spec=spec)
    if sorted(topo.support_nodes()) != sorted(t[-1] for t in spec["trails"]):
        ctx.fail("{}support nodes are {}".format(label, sorted(topo.support_nodes())), spec=spec)
    for t in want.values():
        for j, n in enumerate(t):
            if topo.is_node_origin(n) != (j == 0) or topo.is_node_support(n) != (j == len(t) - 1):
                ctx.fail("{}node {} is misclassified as an origin or a support".format(label, n), spec=spec)
        for a, b in zip(t[:-1], t[1:]):
            e = (a, b) if topo.has_edge(a, b) else (b, a)
            if not topo.is_trail_edge(e):
                ctx.fail("{}consecutive trail nodes {} are not linked by a trail edge".format(label, e), spec=spec)
    seq = oracle.sequences(spec)
    for n, k in seq.items():
        if topo.node_sequence(n) != k:
            ctx.fail("{}node {} is in sequence {} and should be in {}".format(label, n, topo.node_sequence(n), k), spec=spec)


def raw(rng):
    trails, nodes = int(rng.integers(1, 10)), int(rng.integers(3, 12))
    if rng.random() < 0.03:
        # very long, or very many
        trails, nodes = [(1, 300), (2, 120), (70, 3)][int(rng.integers(3))]
    spec = gen.raw_spec(rng, planes=False, shifts=False, max_trails=trails, max_len=nodes,
                        family=gen.pick(rng, ["random", "random", "tower", "arch", "chain", "bridge"]))
    return spec


def fresh_key(spec):
    return max(k for k, _ in spec["nodes"]) + 7


def corrupt(rng, spec):
    """Returns (name, corrupted copy) or None."""
    s = {k: (list(map(list, v)) if k in ("nodes", "edges", "loads", "trails", "shifts") else v) for k, v in spec.items()}
    s["supports"] = list(spec["supports"])
    trail_idx = [i for i, e in enumerate(s["edges"]) if e[2] == "trail"]
    kind = gen.pick(rng, ["missing_support", "no_supports", "stray_node", "deviation_only_node", "cut", "bridge",
                          "fork", "loop", "second_support", "no_trail_edges", "unsupported_trail"])
    taken = {frozenset(e[:2]) for e in s["edges"]}
    k = fresh_key(spec)
    far = [float(x) for x in np.round(100 + rng.normal(size=3), 3)]
    if kind == "missing_support":
        s["supports"].remove(gen.pick(rng, s["supports"]))
        if not s["supports"]:
            kind = "no_supports"
    elif kind == "no_supports":
        s["supports"] = []
    elif kind == "stray_node":
        s["nodes"].append([k, far])
    elif kind == "deviation_only_node":
        s["nodes"].append([k, far])
        s["edges"].append([k, gen.pick(rng, s["nodes"][:-1])[0], "deviation", 1.0, None])
    elif kind == "unsupported_trail":
        s["nodes"] += [[k, far], [k + 1, [x + 1.0 for x in far]]]
        s["edges"].insert(0, [k, k + 1, "trail", 1.0, None])
    elif kind == "cut":
        del s["edges"][gen.pick(rng, trail_idx)]
    elif kind == "bridge":
        if len(s["trails"]) < 2:
            return None
        i, j = rng.choice(len(s["trails"]), size=2, replace=False)
        u, v = gen.pick(rng, s["trails"][int(i)]), gen.pick(rng, s["trails"][int(j)])
        if frozenset((u, v)) in taken:
            return None
        s["edges"].insert(int(rng.integers(len(s["edges"]) + 1)), [u, v, "trail", 1.0, None])
    elif kind == "fork":
        # a branch that ends at a support of its own, off an interior node or the origin
        t = gen.pick(rng, s["trails"])
        s["nodes"].append([k, far])
        s["supports"].insert(int(rng.integers(len(s["supports"]) + 1)), k)
        s["edges"].insert(int(rng.integers(len(s["edges"]) + 1)), [gen.pick(rng, t), k, "trail", -1.0, None])
    elif kind == "loop":
        t = gen.pick(rng, s["trails"])
        if len(t) < 3:
            return None
        i = int(rng.integers(0, len(t) - 2))
        u, v = t[i], t[int(rng.integers(i + 2, len(t)))]
        if frozenset((u, v)) in taken:
            return None
        s["edges"].insert(int(rng.integers(len(s["edges"]) + 1)), [u, v, "trail", 1.0, None])
    elif kind == "second_support":
        t = gen.pick(rng, s["trails"])
        s["supports"].insert(int(rng.integers(len(s["supports"]) + 1)), gen.pick(rng, t[:-1]))
    elif kind == "no_trail_edges":
        s["edges"] = [e for e in s["edges"] if e[2] != "trail"]
    return kind, s


def partition_flaw(topo):
    """What is wrong with the trails, judged by the nodes, trail edges and supports alone."""
    trails = [list(t) for t in topo.trails()]
    inside = [n for t in trails for n in t]
    if sorted(inside) != sorted(topo.nodes()):
        return "nodes {} are not in exactly one trail".format(sorted(n for n in topo.nodes() if inside.count(n) != 1))
    links = {frozenset(e) for e in topo.trail_edges()}
    used = [frozenset(p) for t in trails for p in zip(t[:-1], t[1:])]
    if len(used) != len(set(used)) or set(used) != links:
        return "trail edges {} do not belong to one trail".format([sorted(e) for e in links ^ set(used)])
    supports = set(topo.support_nodes())
    for t in trails:
        if len(t) < 2 or t[-1] not in supports or supports & set(t[:-1]):
            return "trail {} does not run from an origin to its only support".format(t)
    return None


def with_auxiliary(ctx, spec, label):
    """Auxiliary trails mend stray nodes, and nothing else: what is built is a partition, or nothing is built."""
    rng = ctx.rng
    from compas_cem.elements import Node, TrailEdge
    topo = gen.build(spec, trails=False)
    for _ in range(int(rng.integers(0, 3))):
        topo.add_node(Node(max(topo.nodes()) + 3, gen.flist(np.round(70 + 5 * rng.normal(size=3), 3))))
    try:
        common.quiet(topo.build_trails, auxiliary_trails=True)
    except AssertionError:
        ctx.event("refused_with_auxiliary")
        return
    flaw = partition_flaw(topo)
    ctx.event("partitions_judged")
    if flaw:
        ctx.fail("built with auxiliary trails ({}): {}".format(label, flaw), spec=spec)
    # one more trail edge between two nodes that have their trails
    nodes = sorted(topo.nodes())
    for _ in range(5):
        u, v = gen.pick(rng, nodes), gen.pick(rng, nodes)
        if u != v and not topo.has_edge(u, v) and not topo.has_edge(v, u):
            break
    else:
        return
    topo.add_edge(TrailEdge(u, v, length=1.0))
    try:
        common.quiet(topo.build_trails, auxiliary_trails=bool(rng.random() < 0.3))
    except AssertionError:
        ctx.event("refused_with_auxiliary")
        return
    flaw = partition_flaw(topo)
    ctx.event("partitions_judged")
    if flaw:
        ctx.fail("built with auxiliary trails on record and a trail edge {} added: {}".format((u, v), flaw), spec=spec)


def case(ctx):
    rng = ctx.rng
    spec = raw(rng)
    if not gen.coords_distinct(spec):
        raise Skip()
    mode = gen.pick(rng, ["keys", "keys", "points"])
    topo = gen.build(spec, mode=mode)
    check_trails(ctx, topo, spec)
    # building again changes nothing
    topo.build_trails()
    check_trails(ctx, topo, spec, "built twice: ")
    ctx.seen("valid", common.spec_signature(spec), mode)
    ctx.event("long_trails", int(max(len(t) for t in spec["trails"]) > 64))
    ctx.event("many_trails", int(len(spec["trails"]) > 24))

    if len(spec["nodes"]) < 60 and rng.random() < 0.4:
        with_auxiliary(ctx, spec, "valid")
    bad = corrupt(rng, spec)
    if bad is None:
        return
    kind, s = bad
    if len(spec["nodes"]) < 60 and rng.random() < 0.4:
        with_auxiliary(ctx, s, kind)
    topo = gen.build(s, trails=False)
    if rng.random() < 0.3:
        for name, eng in common.engines():
            try:
                eng(topo)
            except Exception:
                ctx.event("refused_without_trails")
            else:
                ctx.fail("{} form-found a diagram without trails".format(name), spec=s)
    try:
        topo.build_trails()
    except Violation:
        raise
    except Exception:
        ctx.event("refused")
        ctx.event("refused_" + kind)
    else:
        ctx.fail("build_trails accepted an ill-formed topology ({}): trails {}".format(
            kind, dict(topo.trails(keys=True))), spec=s, corruption=kind)
    ctx.seen(kind, common.spec_signature(spec))
    # the user mends the diagram and builds again
    if kind in ("missing_support", "no_supports", "cut", "stray_node", "no_trail_edges", "bridge", "loop"):
        if kind in ("missing_support", "no_supports"):
            from compas_cem.supports import NodeSupport
            for n in spec["supports"]:
                if n not in s["supports"]:
                    topo.add_support(NodeSupport(n))
        elif kind in ("cut", "no_trail_edges"):
            from compas_cem.elements import TrailEdge
            have = {frozenset(e[:2]) for e in s["edges"]}
            for e in spec["edges"]:
                if frozenset(e[:2]) not in have:
                    topo.add_edge(TrailEdge(e[0], e[1], length=e[3]))
        elif kind == "stray_node":
            topo.delete_node(s["nodes"][-1][0])
        else:
            have = {frozenset(e[:2]) for e in spec["edges"]}
            for e in s["edges"]:
                if frozenset(e[:2]) not in have:
                    topo.delete_edge(e[0], e[1])
        topo.build_trails()
        check_trails(ctx, topo, spec, "mended ({}): ".format(kind))
        ctx.event("repaired_and_built")
    ctx.sample = common.spec_sample(spec, corruption=kind)
