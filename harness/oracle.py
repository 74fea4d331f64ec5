"""
Independent reference semantics of the combinatorial equilibrium modelling method.

Nothing here imports the code under test.  The reference works on a spec
(see gen.py), in plain numpy, and is written from the definition of the method:

  walk every trail from its origin to its support; at each node the outgoing
  trail force balances the incoming trail force, the load and the deviation
  forces; the next node lies along that force at the prescribed signed length
  (or on the prescribed plane).  Iterate until the positions stop moving.
"""
import numpy as np

TOL_PARALLEL = 1e-6


def sequences(spec):
    start = {t[0]: 0 for t in spec["trails"]}
    for origin, k in spec["shifts"]:
        start[origin] = k
    seq = {}
    for t in spec["trails"]:
        for j, key in enumerate(t):
            seq[key] = start[t[0]] + j
    return seq


def solve(spec, max_iter=400, tol=1e-13, kmax=None, start=None):
    """Fixed point of the method (Jacobi over sequences, Gauss-Seidel along trails)."""
    seq = sequences(spec)
    xyz = {k: np.array(p, dtype=float) for k, p in spec["nodes"]}
    if start is not None:
        xyz = {k: np.array(p, dtype=float) for k, p in start.items()}
    load = {k: np.zeros(3) for k in xyz}
    for k, q in spec["loads"]:
        load[k] = np.array(q, dtype=float)

    trail_edge = {}
    dev = {k: [] for k in xyz}
    for u, v, kind, value, plane in spec["edges"]:
        if kind == "trail":
            trail_edge[frozenset((u, v))] = (value, plane)
        else:
            dev[u].append((v, value))
            dev[v].append((u, value))

    klast = max(seq.values())
    if kmax is not None:
        klast = min(kmax, klast)

    by_seq = {}
    for ti, t in enumerate(spec["trails"]):
        for j, key in enumerate(t):
            by_seq.setdefault(seq[key], []).append((ti, j, key))

    diag = {"min_residual": np.inf, "max_residual": 0.0, "min_plane_cos": np.inf, "plane_bad": False}
    distances = []
    norms = []
    converged = False
    it = 0
    gmax = max(1e-12, max(float(np.max(np.abs(p))) for p in xyz.values()))

    for it in range(max_iter):
        last = {k: p.copy() for k, p in xyz.items()}
        incoming = {k: np.zeros(3) for k in xyz}
        tforce = {}
        tdir = {}
        reaction = {}
        diag = {"min_residual": np.inf, "max_residual": 0.0, "min_plane_cos": np.inf, "plane_bad": False,
                "flips": 0, "planes_used": 0}
        for k in sorted(by_seq):
            if k > klast:
                break
            for ti, j, key in by_seq[k]:
                trail = spec["trails"][ti]
                r = incoming[key] - load[key]
                for other, f in dev[key]:
                    if it == 0 and seq[other] != seq[key]:
                        continue
                    d = xyz[other] - xyz[key]
                    n = np.sqrt(d @ d)
                    if n == 0.0:
                        diag["plane_bad"] = True
                        continue
                    r = r - f * d / n
                if j == len(trail) - 1 or k == klast:
                    reaction[key] = r
                    continue
                nxt = trail[j + 1]
                length, plane = trail_edge[frozenset((key, nxt))]
                mag = float(np.sqrt(r @ r))
                diag["min_residual"] = min(diag["min_residual"], mag)
                diag["max_residual"] = max(diag["max_residual"], mag)
                d = r / mag if mag > 0.0 else np.zeros(3)
                if plane is not None:
                    o, nrm = np.array(plane[0]), np.array(plane[1])
                    c = float(nrm @ d)
                    nn = float(np.sqrt(nrm @ nrm))
                    diag["min_plane_cos"] = min(diag["min_plane_cos"], abs(c) / nn)
                    if abs(c) < 10 * TOL_PARALLEL:
                        diag["plane_bad"] = True
                    else:
                        pl = float(nrm @ (o - xyz[key])) / c
                        if abs(pl) < 1e-3 * spec.get("gscale", 1.0):
                            diag["plane_bad"] = True
                        if pl * length < 0:
                            diag["flips"] += 1
                        diag["planes_used"] += 1
                        length = pl
                xyz[nxt] = xyz[key] + length * d
                tforce[frozenset((key, nxt))] = mag if length > 0 else -mag
                tdir[(key, nxt)] = d
                incoming[nxt] = r
        moved = [float(np.linalg.norm(xyz[k] - last[k])) for k in xyz]
        distances.append(float(np.sum(moved)))
        norms.append(float(np.sqrt(np.sum(np.square(moved)))))
        if not all(np.isfinite(p).all() for p in xyz.values()) or distances[-1] > 1e12:
            break
        if it > 0 and distances[-1] < tol * max(spec.get("gscale", 1.0), gmax) * len(xyz):
            converged = True
            break

    min_dev = np.inf
    for k in xyz:
        for other, f in dev[k]:
            min_dev = min(min_dev, float(np.linalg.norm(xyz[k] - xyz[other])))
    out = {"xyz": xyz, "trail_force": tforce, "trail_dir": tdir, "reaction": reaction, "converged": converged,
           "iters": it, "distances": distances, "norms": norms, "min_dev_length": min_dev,
           "max_coord": max(float(np.max(np.abs(p))) for p in xyz.values()), "seq": seq}
    out.update(diag)
    return out


# ----------------------------------------------------------------------------
# equilibrium residuals of a reported state (no notion of trails involved)
# ----------------------------------------------------------------------------

def nodal_residuals(nodes, edges, force, xyz, load, reaction):
    """
    Sum of every force acting on every node.

    A positive edge force pulls its two ends towards each other.
    """
    res = {k: np.array(load[k], dtype=float) + np.array(reaction[k], dtype=float) for k in nodes}
    for (u, v) in edges:
        d = np.array(xyz[v], dtype=float) - np.array(xyz[u], dtype=float)
        n = float(np.sqrt(d @ d))
        if n == 0.0:
            continue
        f = float(force[(u, v)]) * d / n
        res[u] = res[u] + f
        res[v] = res[v] - f
    return res
