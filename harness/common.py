"""Readers and comparators that only use the public API of the code under test."""
import contextlib
import io

import numpy as np

import gen
import oracle


# ----------------------------------------------------------------------------
# engines
# ----------------------------------------------------------------------------

def engines():
    from compas_cem.equilibrium import static_equilibrium
    from compas_cem.equilibrium import static_equilibrium_numpy
    return [("python", static_equilibrium), ("numpy", static_equilibrium_numpy)]


def engine(name):
    return dict(engines())[name]


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


# ----------------------------------------------------------------------------
# reading a form
# ----------------------------------------------------------------------------

def fl(x):
    return float(x)


class State(object):
    """Everything a user can read from a form diagram, as plain numbers."""

    def __init__(self, form):
        self.nodes = list(form.nodes())
        self.edges = [tuple(e) for e in form.edges()]
        self.xyz = {n: np.array([fl(c) for c in form.node_coordinates(n)]) for n in self.nodes}
        self.load = {n: np.array([fl(c) for c in form.node_load(n)]) for n in self.nodes}
        self.reaction = {n: np.array([fl(c) for c in form.reaction_force(n)]) for n in self.nodes}
        self.force = {e: fl(form.edge_force(e)) for e in self.edges}
        self.length = {e: fl(form.edge_length_2(e)) for e in self.edges}
        self.supports = set(form.support_nodes())

    def finite(self):
        vals = list(self.xyz.values()) + list(self.reaction.values())
        return all(np.isfinite(v).all() for v in vals) and all(np.isfinite(f) for f in self.force.values())

    def uforce(self):
        return {frozenset(e): f for e, f in self.force.items()}

    def ulength(self):
        return {frozenset(e): f for e, f in self.length.items()}

    def dump(self):
        return {"xyz": self.xyz, "force": {str(k): v for k, v in self.force.items()}, "reaction": self.reaction}


def same_state(a, b, tol_x, tol_f, where=""):
    """None when two states agree, else a description of the first difference."""
    if set(a.nodes) != set(b.nodes):
        return "{}different nodes".format(where)
    ea, eb = {frozenset(e) for e in a.edges}, {frozenset(e) for e in b.edges}
    if ea != eb:
        return "{}different edges".format(where)
    for n in a.nodes:
        d = np.max(np.abs(a.xyz[n] - b.xyz[n]))
        if not d <= tol_x:
            return "{}node {} is at {} and at {}".format(where, n, a.xyz[n], b.xyz[n])
        d = np.max(np.abs(a.reaction[n] - b.reaction[n]))
        if not d <= tol_f:
            return "{}node {} has reaction {} and {}".format(where, n, a.reaction[n], b.reaction[n])
        d = np.max(np.abs(a.load[n] - b.load[n]))
        if not d <= tol_f:
            return "{}node {} has load {} and {}".format(where, n, a.load[n], b.load[n])
    fa, fb = a.uforce(), b.uforce()
    la, lb = a.ulength(), b.ulength()
    for e in fa:
        if not abs(fa[e] - fb[e]) <= tol_f:
            return "{}edge {} has force {} and {}".format(where, set(e), fa[e], fb[e])
        if not abs(abs(la[e]) - abs(lb[e])) <= 2 * tol_x:
            return "{}edge {} has length {} and {}".format(where, set(e), la[e], lb[e])
        if abs(fa[e]) > 10 * tol_f and abs(la[e]) > 10 * tol_x and not abs(la[e] - lb[e]) <= 2 * tol_x:
            return "{}edge {} has signed length {} and {}".format(where, set(e), la[e], lb[e])
    if a.supports != b.supports:
        return "{}different supports {} and {}".format(where, a.supports, b.supports)
    return None


def compare_ref(st, ref, spec, tol_x, tol_f):
    """A state against the reference solution of its spec."""
    for n, p in ref["xyz"].items():
        if not np.max(np.abs(st.xyz[n] - p)) <= tol_x:
            return "node {} is at {} but equilibrium puts it at {}".format(n, st.xyz[n], p)
    uf = st.uforce()
    for e, f in ref["trail_force"].items():
        if not abs(uf[e] - f) <= tol_f:
            return "trail edge {} carries {} but equilibrium needs {}".format(set(e), uf[e], f)
    for n, r in ref["reaction"].items():
        if not np.max(np.abs(st.reaction[n] - r)) <= tol_f:
            return "node {} reports reaction {} but equilibrium needs {}".format(n, st.reaction[n], r)
    return None


def tolerances(spec, ref=None, rel=1e-7):
    g = spec["gscale"]
    f = spec["fscale"]
    if ref is not None:
        g = max(g, 1e-2 * ref["max_coord"])
        f = max(f, ref["max_residual"])
    return rel * g, rel * f


# ----------------------------------------------------------------------------
# equilibrium monitor (used by several properties)
# ----------------------------------------------------------------------------

def equilibrium_errors(st, spec, eta, seq=None):
    """
    Residual force at every node and the tolerance that numerics allow there.

    The tolerance is derived, not tuned: a node moved at most eta after its
    neighbours read its position, so an indirect deviation force may point off
    by 2 eta / length; everything else is rounding.
    """
    seq = seq or oracle.sequences(spec)
    dev = {frozenset((e[0], e[1])) for e in spec["edges"] if e[2] == "deviation"}
    res = oracle.nodal_residuals(st.nodes, st.edges, st.force, st.xyz, st.load, st.reaction)
    fmax = max([abs(f) for f in st.force.values()] + [float(np.linalg.norm(q)) for q in st.load.values()] +
               [float(np.linalg.norm(q)) for q in st.reaction.values()] + [1e-300])
    cmax = max(float(np.max(np.abs(p))) for p in st.xyz.values()) + 1e-300
    tol = {n: 1e-9 * fmax for n in st.nodes}
    for (u, v) in st.edges:
        ln = float(np.linalg.norm(st.xyz[u] - st.xyz[v]))
        f = abs(st.force[(u, v)])
        if ln == 0.0:
            if f > 1e-12 * fmax:
                tol[u] += f
                tol[v] += f
            continue
        slack = 1e-13 * cmax / ln
        if frozenset((u, v)) in dev and seq.get(u) != seq.get(v):
            slack += 2.5 * eta / ln
        slack = min(slack, 2.0)
        tol[u] += f * slack
        tol[v] += f * slack
    return res, tol, fmax


def check_equilibrium(ctx, st, spec, eta, label=""):
    if not st.finite():
        ctx.fail("{}the form holds non finite numbers".format(label), state=st.dump(), spec=spec)
    res, tol, fmax = equilibrium_errors(st, spec, eta)
    for n in st.nodes:
        ctx.event("nodes_balanced")
        r = float(np.linalg.norm(res[n]))
        if not r <= 2.0 * tol[n]:
            ctx.fail("{}node {} is out of balance by {:.3e} (largest force {:.3e}, tolerance {:.1e})".format(
                label, n, r, fmax, 2 * tol[n]), state=st.dump(), spec=spec)
    # reactions only at supports
    for n in st.nodes:
        if n not in st.supports and float(np.linalg.norm(st.reaction[n])) > 0.0:
            ctx.fail("{}node {} is not a support but reports the reaction {}".format(label, n, st.reaction[n]),
                     state=st.dump(), spec=spec)
    # the external forces balance on their own, in translation and rotation
    total = sum(st.load.values()) + sum(st.reaction.values())
    slack = 2.0 * sum(tol.values())
    ctx.event("global_balances")
    if not float(np.linalg.norm(total)) <= slack:
        ctx.fail("{}loads and reactions do not add up to zero: {}".format(label, total), state=st.dump(), spec=spec)
    moment = sum(np.cross(st.xyz[n], st.load[n] + st.reaction[n]) for n in st.nodes)
    arm = 1.0 + max(float(np.linalg.norm(p)) for p in st.xyz.values())
    if not float(np.linalg.norm(moment)) <= slack * arm * 2.0:
        ctx.fail("{}loads and reactions leave a moment {}".format(label, moment), state=st.dump(), spec=spec)


def pushes(st, node):
    """Is the strongest edge at a node in compression? None if there is as much tension."""
    fs = sorted((st.force[e] for e in st.edges if node in e), key=abs)
    if not fs or abs(fs[-1]) == 0.0 or any(abs(fs[-1]) - abs(x) <= 1e-9 * abs(fs[-1]) and fs[-1] * x < 0 for x in fs):
        return None
    return fs[-1] < 0.0


def spec_signature(spec):
    """Shape of a problem: what makes two generated cases genuinely different."""
    seq = oracle.sequences(spec)
    dev = [e for e in spec["edges"] if e[2] == "deviation"]
    direct = sum(1 for e in dev if seq[e[0]] == seq[e[1]])
    signs = "".join(sorted({("+" if e[3] > 0 else "-") for e in spec["edges"] if e[2] == "trail"}))
    planes = sum(1 for e in spec["edges"] if e[4] is not None)
    return (tuple(sorted(len(t) for t in spec["trails"])), direct, len(dev) - direct, signs, planes,
            len(spec["loads"]), len(spec["shifts"]))


def spec_sample(spec, **extra):
    d = {"family": spec["family"], "trails": spec["trails"], "loads": len(spec["loads"]),
         "deviation_edges": sum(1 for e in spec["edges"] if e[2] == "deviation"),
         "planes": sum(1 for e in spec["edges"] if e[4] is not None), "shifts": spec["shifts"]}
    d.update(extra)
    return d


def topo_text(topology):
    """A canonical text of everything a topology stores."""
    return canonical(topology.to_data())


def canonical(x):
    if isinstance(x, dict):
        return "{" + ",".join(sorted("{}:{}".format(canonical(k), canonical(v)) for k, v in x.items())) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canonical(v) for v in x) + "]"
    if isinstance(x, (np.floating, float)):
        return repr(float(x))
    if isinstance(x, np.ndarray):
        return canonical(x.tolist())
    if hasattr(x, "to_data"):
        return type(x).__name__ + canonical(x.to_data())
    return repr(x)
