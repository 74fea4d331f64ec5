"""
Workload generators.

A *spec* is a plain JSON-serialisable description of a topology diagram.  It is
never derived from the code under test: the trails, sequences and the expected
state are known by construction, so the oracles can judge what the real code
reports about the diagram that is built from it.

    spec = {
      "nodes":   [[key, [x, y, z]], ...]           insertion order
      "edges":   [[u, v, "trail"|"deviation", value, plane|None], ...]
      "supports":[key, ...]
      "loads":   [[key, [qx, qy, qz]], ...]
      "trails":  [[origin, ..., support], ...]
      "shifts":  [[origin, sequence], ...]
      "family":  str
    }
"""
import copy
import math

import numpy as np

import oracle


# ----------------------------------------------------------------------------
# small helpers
# ----------------------------------------------------------------------------

def unit(rng, planar=False):
    while True:
        v = rng.normal(size=3)
        if planar:
            v[2] = 0.0
        n = np.linalg.norm(v)
        if n > 0.1:
            return v / n


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def flist(v):
    return [float(x) for x in v]


def make_keys(rng, n):
    mode = pick(rng, ["range", "range", "shuffled", "sparse", "negative", "huge"])
    if mode == "range":
        return list(range(n))
    if mode == "shuffled":
        return [int(k) for k in rng.permutation(n)]
    if mode == "sparse":
        return [int(k) for k in rng.choice(np.arange(0, 40 * n), size=n, replace=False)]
    if mode == "negative":
        return [int(k) for k in rng.choice(np.arange(-3 * n, 3 * n), size=n, replace=False)]
    return [int(k) for k in rng.choice(np.arange(10 ** 6, 10 ** 6 + 50 * n), size=n, replace=False)]


# ----------------------------------------------------------------------------
# raw structures (may be badly conditioned)
# ----------------------------------------------------------------------------

FAMILIES = ["chain", "arch", "tower", "random", "random", "random", "bridge"]


def raw_spec(rng, family=None, max_trails=6, max_len=6, planes=True, indirect=True, shifts=True,
             one_sign=None, deviation_scale=None):
    family = family or pick(rng, FAMILIES)
    planar = bool(rng.random() < 0.2)
    # what people draw by hand: on a grid, all lengths, loads and forces alike
    regular = bool(rng.random() < 0.15)

    if family == "chain":
        n_trails = 1
        lens = [int(rng.integers(2, max_len + 2))]
    elif family == "arch":
        n_trails = 2
        lens = [int(rng.integers(2, max_len + 1)) for _ in range(2)]
    elif family == "tower":
        n_trails = int(rng.integers(3, max(4, max_trails + 1)))
        lens = [int(rng.integers(2, max_len + 1))] * n_trails
    elif family == "bridge":
        n_trails = 2 * int(rng.integers(1, max(2, max_trails // 2 + 1)))
        lens = [int(rng.integers(2, 4))] * n_trails
    else:
        n_trails = int(rng.integers(1, max_trails + 1))
        lens = [int(rng.integers(2, max_len + 2)) for _ in range(n_trails)]

    n = sum(lens)
    keys = make_keys(rng, n)
    it = iter(keys)
    trails = [[next(it) for _ in range(m)] for m in lens]

    # a main direction along which the trails go
    main = np.array([0.0, 0.0, -1.0])
    if rng.random() < 0.5 or planar:
        main = unit(rng, planar)
    if regular:
        planar = False
        main = float(pick(rng, [1.0, -1.0])) * np.eye(3)[int(rng.integers(3))]

    gscale = float(pick(rng, [1.0, 1.0, 1.0, 0.1, 10.0]))
    fscale = float(pick(rng, [1.0, 1.0, 1.0, 1e-2, 50.0]))

    if one_sign is None:
        sign_mode = pick(rng, ["compression", "tension", "per_trail", "per_edge", "compression"])
    else:
        sign_mode = one_sign

    # input coordinates
    xyz = {}
    ring = rng.random() < 0.5
    side = unit(rng, planar)
    side2 = np.cross(main, side)
    if np.linalg.norm(side2) < 1e-3:
        side2 = np.array([0.0, 1.0, 0.0])
    for i, trail in enumerate(trails):
        if ring and n_trails > 2:
            ang = 2 * math.pi * i / n_trails
            base = 2.0 * (math.cos(ang) * side + math.sin(ang) * side2)
        else:
            base = 1.3 * i * side + 0.5 * rng.normal(size=3)
        base = base + 0.2 * rng.normal(size=3)
        if planar:
            base[2] = 0.0
        if regular:
            axis = np.roll(np.abs(main), 1)
            base = float(i) * axis if n_trails < 4 else float(i % 2) * axis + float(i // 2) * np.roll(axis, 1)
        for j, key in enumerate(trail):
            p = base + j * main + (0.0 if regular else 0.15) * rng.normal(size=3)
            if planar:
                p[2] = 0.0
            xyz[key] = np.round(gscale * p, 4)

    # trail edges
    edges = []
    for trail in trails:
        ts = pick(rng, [-1.0, 1.0])
        for a, b in zip(trail[:-1], trail[1:]):
            length = gscale * float(rng.uniform(0.3, 2.0))
            if rng.random() < 0.15:
                length = gscale * float(pick(rng, [1.0, 0.5, 2.0]))
            if sign_mode == "compression":
                s = -1.0
            elif sign_mode == "tension":
                s = 1.0
            elif sign_mode == "per_trail":
                s = ts
            else:
                s = pick(rng, [-1.0, 1.0])
            if rng.random() < 0.5:
                a, b = b, a
            edges.append([a, b, "trail", s * length, None])

    if regular:
        one = gscale * float(pick(rng, [1.0, 1.0, 0.5, 2.0]))
        for e in edges:
            e[3] = float(np.sign(e[3])) * one

    # sequences including shifts
    start = {t[0]: 0 for t in trails}
    shift_list = []
    if shifts and rng.random() < 0.35 and n_trails > 1:
        for t in trails:
            if rng.random() < 0.5:
                k = int(rng.integers(0, 5))
                start[t[0]] = k
                shift_list.append([t[0], k])
    seq = {}
    for t in trails:
        for j, key in enumerate(t):
            seq[key] = start[t[0]] + j

    # loads
    loads = []
    for trail in trails:
        for j, key in enumerate(trail):
            if j == 0 or rng.random() < 0.6:
                # biased so that residuals do not vanish
                sgn = -1.0 if sign_mode in ("tension",) else 1.0
                v = sgn * main * float(rng.uniform(0.5, 2.0)) + 0.35 * rng.normal(size=3)
                if rng.random() < 0.2:
                    v = sgn * main * float(pick(rng, [0.5, 1.0, 2.0]))
                if planar:
                    v[2] = 0.0
                loads.append([key, flist(np.round(fscale * v, 6))])
    if regular:
        sgn = -1.0 if sign_mode == "tension" else 1.0
        one = fscale * (sgn * float(pick(rng, [1.0, 0.5, 2.0])) * main + float(pick(rng, [0.0, 0.0, 0.5])) * np.roll(main, 1))
        loads = [[k, flist(one)] for k, _ in loads]

    # deviation edges
    taken = {frozenset((e[0], e[1])) for e in edges}
    pairs = []
    if n_trails > 1:
        if family in ("tower", "arch", "bridge"):
            nxt = [(i, (i + 1) % n_trails) for i in range(n_trails)] if n_trails > 2 else [(0, 1)]
            if family == "bridge":
                nxt = [(i, i + 1) for i in range(0, n_trails, 2)] + [(i, i + 2) for i in range(0, n_trails - 2)]
            for i, j in nxt:
                depth = min(len(trails[i]), len(trails[j]))
                if family != "tower":
                    depth = 1 if rng.random() < 0.6 else depth
                for d in range(depth):
                    pairs.append((trails[i][d], trails[j][d]))
        m = int(rng.integers(0, 2 * n_trails + 1))
        for _ in range(m):
            i, j = rng.choice(n_trails, size=2, replace=False)
            pairs.append((pick(rng, trails[int(i)]), pick(rng, trails[int(j)])))
    # deviation edge inside the same trail (a chord)
    for t in trails:
        if len(t) > 2 and rng.random() < 0.12:
            i = int(rng.integers(0, len(t) - 2))
            pairs.append((t[i], t[int(rng.integers(i + 2, len(t)))]))

    dscale = deviation_scale if deviation_scale is not None else 1.0
    for u, v in pairs:
        fs = frozenset((u, v))
        if fs in taken:
            continue
        is_direct = seq[u] == seq[v]
        if not is_direct and not indirect:
            continue
        taken.add(fs)
        f = float(rng.uniform(0.1, 0.9)) if is_direct else float(rng.uniform(0.02, 0.25))
        f *= pick(rng, [-1.0, 1.0]) * dscale
        if rng.random() < 0.06:
            f = 0.0
        if regular:
            f = float(np.sign(f)) * (0.5 if is_direct else 0.125) * dscale
        if rng.random() < 0.5:
            u, v = v, u
        edges.append([u, v, "deviation", round(fscale * f, 8), None])

    spec = {"nodes": [[k, flist(xyz[k])] for k in keys],
            "edges": edges,
            "supports": [t[-1] for t in trails],
            "loads": loads,
            "trails": trails,
            "shifts": shift_list,
            "family": family,
            "regular": regular,
            "gscale": gscale,
            "fscale": fscale}

    # planes
    if planes and rng.random() < 0.4:
        ref = oracle.solve(spec, max_iter=60)
        for e in spec["edges"]:
            if e[2] == "trail" and rng.random() < 0.35:
                a, b = ordered(spec, e)
                d = ref["xyz"][b] - ref["xyz"][a]
                ln = np.linalg.norm(d)
                if not np.isfinite(ln) or ln < 1e-9:
                    continue
                nrm = d / ln + 0.5 * rng.normal(size=3)
                mag = float(pick(rng, [1.0, 1.0, 0.3, 7.0, -1.0]))
                nrm = mag * nrm / np.linalg.norm(nrm)
                org = ref["xyz"][b] + 0.1 * gscale * rng.normal(size=3)
                e[4] = [flist(np.round(org, 6)), flist(np.round(nrm, 6))]
        held = [e for e in spec["edges"] if e[4] is not None]
        if held and rng.random() < 0.2:
            # one of the planes starts at the origin of the world
            o = np.array(pick(rng, held)[4][0])
            for e in held:
                e[4][0] = flist(np.array(e[4][0]) - o)
            spec["nodes"] = [[k, flist(np.round(np.array(p) - o, 6))] for k, p in spec["nodes"]]

    # shuffle insertion orders
    if rng.random() < 0.5:
        spec["nodes"] = [spec["nodes"][i] for i in rng.permutation(len(keys))]
    if rng.random() < 0.5:
        spec["edges"] = [spec["edges"][i] for i in rng.permutation(len(spec["edges"]))]
    if rng.random() < 0.5:
        spec["supports"] = [spec["supports"][i] for i in rng.permutation(n_trails)]
    return spec


def ordered(spec, edge):
    """The endpoints of a trail edge ordered from the origin to the support."""
    pos = {}
    for t in spec["trails"]:
        for j, k in enumerate(t):
            pos[k] = j
    u, v = edge[0], edge[1]
    return (u, v) if pos[u] < pos[v] else (v, u)


# ----------------------------------------------------------------------------
# well conditioned specs
# ----------------------------------------------------------------------------

def coords_distinct(spec, digits=3):
    seen = set()
    for _, p in spec["nodes"]:
        g = tuple(round(c, digits) for c in p)
        if g in seen:
            return False
        seen.add(g)
    return True


def spec_ok(spec, ref, max_rate_iters=80):
    """Is this problem well conditioned enough for a numerical oracle to be exact?"""
    if not ref["converged"] or ref["iters"] > max_rate_iters:
        return False
    g = spec["gscale"]
    f = spec["fscale"]
    if ref["min_residual"] < 0.1 * f or ref["max_residual"] > 1e3 * f:
        return False
    if ref["min_dev_length"] < 0.05 * g:
        return False
    if ref["min_plane_cos"] < 0.15 or ref["plane_bad"]:
        return False
    if ref["max_coord"] > 200.0 * g:
        return False
    if not coords_distinct(spec):
        return False
    return True


def good_spec(rng, tries=200, **kw):
    """Rejection sample until the oracle says the problem is well conditioned."""
    if set(kw) <= {"max_trails", "max_len"} and rng.random() < 0.06:
        _, spec, ref = exotic(rng, ["integers"] if kw else ["hub", "long", "wide", "integers"])
        return spec, ref
    for _ in range(tries):
        spec = raw_spec(rng, **kw)
        ref = oracle.solve(spec, max_iter=90)
        if spec_ok(spec, ref):
            return spec, ref
    raise RuntimeError("generator could not produce a well conditioned spec")


# ----------------------------------------------------------------------------
# unusual magnitudes
# ----------------------------------------------------------------------------

def scaled(spec, g=1.0, f=1.0):
    """The same problem in other units: lengths times g, forces times f."""
    out = copy.deepcopy(spec)
    out["nodes"] = [[k, [g * c for c in p]] for k, p in spec["nodes"]]
    for e in out["edges"]:
        e[3] = e[3] * (g if e[2] == "trail" else f)
        if e[4] is not None:
            e[4] = [[g * c for c in e[4][0]], list(e[4][1])]
    out["loads"] = [[k, [f * c for c in q]] for k, q in spec["loads"]]
    out["gscale"] = spec["gscale"] * g
    out["fscale"] = spec["fscale"] * f
    return out


def weak_trails(spec, rng):
    """Some trails that no deviation edge touches carry next to nothing. Returns how many there are."""
    touched = {n for e in spec["edges"] if e[2] == "deviation" for n in e[:2]}
    count = 0
    for t in spec["trails"]:
        if touched.isdisjoint(t):
            s = float(pick(rng, [1e-3, 1e-4, 1e-5, 1e-6]))
            spec["loads"] = [[k, [s * c for c in q]] if k in t else [k, q] for k, q in spec["loads"]]
            count += 1
    return count


def close_origins(spec, rng):
    """Put two origins joined by a deviation edge next to each other."""
    heads = {t[0] for t in spec["trails"]}
    dev = [e for e in spec["edges"] if e[2] == "deviation" and e[0] in heads and e[1] in heads]
    if not dev:
        return False
    e = pick(rng, dev)
    pos = dict((k, p) for k, p in spec["nodes"])
    gap = spec["gscale"] * float(pick(rng, [1e-2, 1e-3, 3e-4, 1e-4, 1e-5]))
    new = flist(np.array(pos[e[1]]) + gap * unit(rng))
    spec["nodes"] = [[k, new if k == e[0] else p] for k, p in spec["nodes"]]
    return True


# ----------------------------------------------------------------------------
# unusual shapes of problem
# ----------------------------------------------------------------------------

EXOTIC = ["hub", "hub", "long", "wide", "integers", "glancing", "far plane", "near plane"]


def hub_spec(rng, tries=40):
    """One node that a dozen or more deviation edges meet in."""
    for _ in range(tries):
        spec = raw_spec(rng, family="random", max_trails=int(rng.integers(12, 30)), max_len=2, planes=False)
        nodes = [n for t in spec["trails"] for n in t]
        heads = [t[0] for t in spec["trails"]]
        if len(heads) < 9:
            continue
        home = pick(rng, spec["trails"])
        hub = pick(rng, [home[0], home[0], home[-1], pick(rng, home)])
        have = {frozenset(e[:2]) for e in spec["edges"]}
        m = int(rng.integers(9, 30))
        for n in [nodes[i] for i in rng.permutation(len(nodes))[:m]]:
            if n in home or frozenset((n, hub)) in have:
                continue
            f = float(rng.uniform(0.02, 0.2)) * float(pick(rng, [-1.0, 1.0])) * spec["fscale"]
            spec["edges"].append([n, hub, "deviation", round(f, 8), None] if rng.random() < 0.5 else [hub, n, "deviation", round(f, 8), None])
        ref = oracle.solve(spec, max_iter=120)
        degree = sum(1 for e in spec["edges"] if e[2] == "deviation" and hub in e[:2])
        if degree >= 9 and spec_ok(spec, ref, 110):
            spec["family"] = "hub"
            return spec, ref
    return None, None


def long_spec(rng, tries=10):
    """A trail of very many nodes."""
    for _ in range(tries):
        spec = raw_spec(rng, family=pick(rng, ["chain", "chain", "arch"]), max_len=pick(rng, [40, 90, 180]), planes=False, indirect=False)
        ref = oracle.solve(spec, max_iter=10)
        if max(len(t) for t in spec["trails"]) > 25 and ref["min_residual"] > 0.1 * spec["fscale"] and ref["min_dev_length"] > 0.05 * spec["gscale"]:
            spec["family"] = "long"
            return spec, ref
    return None, None


def wide_spec(rng, tries=10):
    """Very many trails."""
    for _ in range(tries):
        spec = raw_spec(rng, family=pick(rng, ["tower", "random"]), max_trails=pick(rng, [30, 60]), max_len=2)
        ref = oracle.solve(spec, max_iter=90)
        if len(spec["trails"]) > 16 and spec_ok(spec, ref):
            spec["family"] = "wide"
            return spec, ref
    return None, None


def integer_spec(rng, tries=80):
    """Everything is a whole number, and given as one."""
    for _ in range(tries):
        spec = raw_spec(rng, planes=False)
        g, f = spec["gscale"], spec["fscale"]
        spec["nodes"] = [[k, [int(round(3 * c / g)) for c in p]] for k, p in spec["nodes"]]
        for e in spec["edges"]:
            e[3] = int(round(4 * e[3] / g)) or 1 if e[2] == "trail" else int(round(20 * e[3] / f))
        spec["loads"] = [[k, [int(round(20 * c / f)) for c in q]] for k, q in spec["loads"]]
        spec["gscale"], spec["fscale"] = 3.0, 20.0
        ref = oracle.solve(spec, max_iter=90)
        if spec_ok(spec, ref):
            spec["family"] = "integers"
            return spec, ref
    return None, None


def end_plane_spec(rng, kind, tries=40):
    """Planes at the ends of trails: at a glancing angle, far away, or right behind the last node but one."""
    for _ in range(tries):
        spec, ref = good_spec(rng, planes=False)
        g = spec["gscale"]
        touched = {n for e in spec["edges"] if e[2] == "deviation" for n in e[:2]}
        count = 0
        for e in spec["edges"]:
            if e[2] != "trail":
                continue
            a, b = ordered(spec, e)
            if b not in spec["supports"] or b in touched or rng.random() < 0.3:
                continue
            d = ref["xyz"][b] - ref["xyz"][a]
            side = float(np.sign(e[3]))
            d = side * d / np.linalg.norm(d)          # along the force
            across = np.cross(d, unit(rng))
            if np.linalg.norm(across) < 0.1:
                continue
            across = across / np.linalg.norm(across)
            c, reach = float(rng.uniform(0.3, 1.0)), float(rng.uniform(0.5, 2.0))
            if kind == "glancing":
                c = float(pick(rng, [4e-5, 1e-4, 5e-4, 2e-3, 1e-2, 5e-2]))
            elif kind == "far plane":
                reach = float(pick(rng, [3e2, 3e3, 5e4, 1e6]))
            else:
                reach = float(pick(rng, [3e-2, 3e-3, 5e-4, 1e-5]))
            if rng.random() < 0.3:
                reach = -reach
            normal = c * d + math.sqrt(1.0 - c * c) * across
            if rng.random() < 0.3:
                normal = -normal
            e[4] = [flist(ref["xyz"][a] + side * reach * g * d + 0.3 * g * np.cross(normal, unit(rng))), flist(normal)]
            count += 1
        if count:
            ref = oracle.solve(spec, max_iter=90)
            if ref["converged"]:
                spec["family"] = kind
                return spec, ref
    return None, None


def exotic(rng, kinds=EXOTIC):
    """(kind, spec, reference) of an unusual problem that is still well conditioned."""
    while True:
        kind = pick(rng, kinds)
        spec, ref = {"hub": hub_spec, "long": long_spec, "wide": wide_spec, "integers": integer_spec}.get(
            kind, lambda r: end_plane_spec(r, kind))(rng)
        if spec is not None:
            return kind, spec, ref


def exotic_tolerances(kind, spec, ref, rel=1e-7):
    """(positions, forces): a glancing or far plane multiplies the rounding of the force's direction."""
    tx, tf = rel * spec["gscale"], rel * max(spec["fscale"], ref["max_residual"])
    tx = max(tx, 1e-9 * ref["max_coord"])
    if kind in ("glancing", "far plane"):
        tx = max(tx, 1e-10 * ref["max_coord"] / max(ref["min_plane_cos"], 1e-6))
    return tx, tf


# ----------------------------------------------------------------------------
# building through the public API of the code under test
# ----------------------------------------------------------------------------

def spec_plane(plane):
    from compas.geometry import Plane
    return Plane(list(plane[0]), list(plane[1])) if plane is not None else None


def build(spec, mode="keys", trails=True, plane_mode="Plane"):
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import Node, TrailEdge, DeviationEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport

    topology = TopologyDiagram()
    for key, xyz in spec["nodes"]:
        topology.add_node(Node(key, list(xyz)))
    coords = {k: list(p) for k, p in spec["nodes"]}

    for u, v, kind, value, plane in spec["edges"]:
        a, b = (u, v) if mode == "keys" else (coords[u], coords[v])
        if kind == "trail":
            pl = None
            if plane is not None:
                pl = spec_plane(plane) if plane_mode == "Plane" else tuple(map(list, plane))
            topology.add_edge(TrailEdge(a, b, length=value, plane=pl))
        else:
            topology.add_edge(DeviationEdge(a, b, force=value))

    for key in spec["supports"]:
        if mode == "keys":
            topology.add_support(NodeSupport(key))
        else:
            topology.add_support(NodeSupport.from_point(coords[key]))

    for key, q in spec["loads"]:
        if mode == "keys":
            topology.add_load(NodeLoad(key, list(q)))
        else:
            topology.add_load(NodeLoad.from_point_and_vector(coords[key], list(q)))

    if trails:
        topology.build_trails()
        for origin, k in spec["shifts"]:
            topology.shift_trail(origin, k)
    return topology
