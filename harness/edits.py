"""Edits applied in parallel to a spec (the model) and to a live topology diagram."""
import copy

import numpy as np

import gen


def key_of(topo, u, v):
    return (u, v) if topo.has_edge(u, v) else (v, u)


def fresh_key(rng, spec):
    have = {k for k, _ in spec["nodes"]}
    return max(have) + int(rng.integers(1, 9))


def coord(spec, k):
    return dict((n, p) for n, p in spec["nodes"])[k]


def _drop_node(spec, k):
    spec["nodes"] = [x for x in spec["nodes"] if x[0] != k]
    spec["edges"] = [e for e in spec["edges"] if k not in e[:2]]
    spec["loads"] = [x for x in spec["loads"] if x[0] != k]
    spec["supports"] = [x for x in spec["supports"] if x != k]


KINDS = ["extend_origin", "trim_origin", "drop_trail", "new_trail", "split", "rewire_deviation", "add_deviation",
         "remove_deviation", "load", "length", "force", "move", "shift", "flip_edge", "recast"]


def structural_edit(rng, spec, topo, kinds=None):
    """
    One random edit that leaves a well formed topology behind once trails are rebuilt.

    Returns (kind, new spec) or None when the edit does not apply.
    """
    from compas_cem.elements import Node, TrailEdge, DeviationEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport

    kind = gen.pick(rng, kinds or KINDS)
    new = copy.deepcopy(spec)
    g, f = spec["gscale"], spec["fscale"]
    trails = new["trails"]

    def add_node(k, p):
        if rng.random() < 0.8:
            topo.add_node(Node(k, list(p)))
        else:
            topo.add_node(Node(k, tuple(p)))

    if kind == "extend_origin":
        t = gen.pick(rng, trails)
        k = fresh_key(rng, new)
        p = gen.flist(np.round(np.array(coord(new, t[0])) + g * (0.5 + rng.random(3)), 4))
        length = float(g * rng.uniform(0.4, 1.5) * gen.pick(rng, [-1.0, 1.0]))
        u, v = (k, t[0]) if rng.random() < 0.5 else (t[0], k)
        add_node(k, p)
        topo.add_edge(TrailEdge(u, v, length=length))
        q = gen.flist(np.round(f * rng.normal(size=3), 4))
        topo.add_load(NodeLoad(k, list(q)))
        new["nodes"].append([k, p])
        new["edges"].append([u, v, "trail", length, None])
        new["loads"].append([k, q])
        t.insert(0, k)
    elif kind == "trim_origin":
        cand = [t for t in trails if len(t) > 2]
        if not cand:
            return None
        t = gen.pick(rng, cand)
        topo.delete_node(t[0])
        _drop_node(new, t[0])
        del t[0]
    elif kind == "drop_trail":
        if len(trails) < 2:
            return None
        i = int(rng.integers(len(trails)))
        for k in [trails[i][j] for j in rng.permutation(len(trails[i]))]:
            topo.delete_node(int(k))
            _drop_node(new, int(k))
        del trails[i]
    elif kind == "new_trail":
        k = fresh_key(rng, new)
        m = int(rng.integers(2, 5))
        keys = [k + j for j in range(m)]
        base = np.round(g * (30 + 10 * rng.normal(size=3)), 3)
        for j, n in enumerate(keys):
            p = gen.flist(np.round(base + g * np.array([0.0, 0.0, -1.0 * j]), 4))
            add_node(n, p)
            new["nodes"].append([n, p])
        for a, b in zip(keys[:-1], keys[1:]):
            length = float(g * rng.uniform(0.4, 1.5) * gen.pick(rng, [-1.0, 1.0]))
            topo.add_edge(TrailEdge(a, b, length=length))
            new["edges"].append([a, b, "trail", length, None])
        topo.add_support(NodeSupport(keys[-1]))
        new["supports"].append(keys[-1])
        q = gen.flist(np.round(f * (np.array([0, 0, -1.0]) + 0.2 * rng.normal(size=3)), 4))
        topo.add_load(NodeLoad(keys[0], list(q)))
        new["loads"].append([keys[0], q])
        trails.append(keys)
    elif kind == "split":
        # cut a long trail: the upper part gets a support of its own
        cand = [i for i, t in enumerate(trails) if len(t) >= 4]
        if not cand:
            return None
        i = gen.pick(rng, cand)
        t = trails[i]
        j = int(rng.integers(2, len(t) - 1))
        a, b = t[j - 1], t[j]
        topo.delete_edge(*key_of(topo, a, b))
        new["edges"] = [e for e in new["edges"] if set(e[:2]) != {a, b}]
        topo.add_support(NodeSupport(a))
        new["supports"].append(a)
        trails[i] = t[:j]
        trails.append(t[j:])
    elif kind in ("add_deviation", "rewire_deviation"):
        dev = [e for e in new["edges"] if e[2] == "deviation"]
        if kind == "rewire_deviation":
            if not dev:
                return None
            e = gen.pick(rng, dev)
        taken = {frozenset(x[:2]) for x in new["edges"]}
        for _ in range(10):
            u, v = [new["nodes"][int(i)][0] for i in rng.choice(len(new["nodes"]), size=2, replace=False)]
            if frozenset((u, v)) not in taken:
                break
        else:
            return None
        if kind == "rewire_deviation":
            topo.delete_edge(*key_of(topo, e[0], e[1]))
            new["edges"].remove(e)
        val = float(f * rng.uniform(0.05, 0.6) * gen.pick(rng, [-1.0, 1.0]))
        topo.add_edge(DeviationEdge(u, v, force=val))
        new["edges"].append([u, v, "deviation", val, None])
    elif kind == "remove_deviation":
        dev = [e for e in new["edges"] if e[2] == "deviation"]
        if not dev:
            return None
        e = gen.pick(rng, dev)
        topo.delete_edge(*key_of(topo, e[0], e[1]))
        new["edges"].remove(e)
    elif kind == "load":
        n = gen.pick(rng, new["nodes"])[0]
        q = gen.flist(np.round(f * rng.normal(size=3), 5))
        if rng.random() < 0.15:
            q = [0.0, 0.0, 0.0]
        topo.add_load(NodeLoad(n, list(q)))
        new["loads"] = [x for x in new["loads"] if x[0] != n] + [[n, q]]
    elif kind in ("length", "force"):
        cand = [e for e in new["edges"] if e[2] == ("trail" if kind == "length" else "deviation")]
        if not cand:
            return None
        e = gen.pick(rng, cand)
        e[3] = float(e[3] * rng.uniform(0.6, 1.5))
        if rng.random() < 0.5:
            topo.edge_attribute(key_of(topo, e[0], e[1]), kind, e[3])
        else:
            u, v = key_of(topo, e[0], e[1])
            if kind == "length":
                if rng.random() < 0.3:
                    # the new edge replaces the old one, plane included
                    e[4] = None if e[4] is not None else [gen.flist(np.round(g * rng.normal(size=3), 3)), gen.flist(gen.unit(rng))]
                topo.add_edge(TrailEdge(u, v, length=e[3], plane=gen.spec_plane(e[4])))
            else:
                topo.add_edge(DeviationEdge(u, v, force=e[3]))
    elif kind == "move":
        x = gen.pick(rng, new["nodes"])
        x[1] = gen.flist(np.round(np.array(x[1]) + g * rng.uniform(0.2, 1.0, size=3), 4))
        topo.node_xyz(x[0], list(x[1]))
    elif kind == "shift":
        # only visible until the trails are built again
        t = gen.pick(rng, spec["trails"])
        try:
            topo.shift_trail(t[0], int(rng.integers(0, 5)))
        except Exception:
            return None
    elif kind == "flip_edge":
        e = gen.pick(rng, new["edges"])
        u, v = key_of(topo, e[0], e[1])
        topo.delete_edge(u, v)
        if e[2] == "trail":
            topo.add_edge(TrailEdge(v, u, length=e[3], plane=gen.spec_plane(e[4])))
        else:
            topo.add_edge(DeviationEdge(v, u, force=e[3]))
        e[0], e[1] = v, u
    elif kind == "recast":
        # detach the first node of a trail: its trail edge becomes a deviation edge and it gets a trail of its own
        cand = [t for t in trails if len(t) > 2]
        if not cand:
            return None
        t = gen.pick(rng, cand)
        a, b = t[0], t[1]
        u, v = key_of(topo, a, b)
        val = float(f * rng.uniform(0.1, 0.5) * gen.pick(rng, [-1.0, 1.0]))
        topo.delete_edge(u, v)
        topo.add_edge(DeviationEdge(u, v, force=val))
        new["edges"] = [e for e in new["edges"] if set(e[:2]) != {a, b}]
        new["edges"].append([u, v, "deviation", val, None])
        k = fresh_key(rng, new)
        p = gen.flist(np.round(np.array(coord(new, a)) - g * (0.5 + rng.random(3)), 4))
        length = float(-g * rng.uniform(0.4, 1.5))
        add_node(k, p)
        topo.add_edge(TrailEdge(a, k, length=length))
        topo.add_support(NodeSupport(k))
        new["nodes"].append([k, p])
        new["edges"].append([a, k, "trail", length, None])
        new["supports"].append(k)
        del t[0]
        trails.append([a, k])
    else:
        raise ValueError(kind)
    return kind, new
